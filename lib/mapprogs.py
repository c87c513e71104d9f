"""Architectures and operations for the mapper checks (C15-C24)."""
from hwtypes import BitVector, Bit, SIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from peak import Peak, family_closure, name_outputs, Const

from .mapnames import ARCH_OPS

W = 3
Word = BitVector[W]
Idx = BitVector[2]


class Op(Enum):
    add = 0
    sub = 1
    xor = 2
    band = 3


class Sparse(Enum):
    fwd = 1
    inv = 2
    neg = 5


class Inst1(Product):
    op = Op
    flip = Bit


class ImmInst(Product):
    kind = Sparse
    use = Bit
    imm = Word


class RR(Product):
    class Alu(Enum):
        add = 1
        band = 2
    rd = Idx


class RI(Product):
    class Alu(Enum):
        ld = 3
        add = 4
    rd = Idx
    imm = Word


class Lut(Product):
    t = BitVector[4]
    inv = Bit


class UInst(TaggedUnion):
    rr = RR
    ri = RI


Pair = Tuple[Op, Word]
SInst = Sum[Pair, Sparse]


# ---------------------------------------------------------------- architectures
@family_closure
def alu_arch(family):
    @family.assemble(locals(), globals())
    class AluArch(Peak):
        @name_outputs(out=Word)
        def __call__(self, inst: Const(Inst1), a: Word, b: Word) -> Word:
            if inst.op == Op.add:
                r = a + b
            elif inst.op == Op.sub:
                r = a - b
            elif inst.op == Op.xor:
                r = a ^ b
            else:
                r = a & b
            if inst.flip:
                r = ~r
            return r
    return AluArch


@family_closure
def imm_arch(family):
    """sparse enum, immediate, two outputs of different types"""
    @family.assemble(locals(), globals())
    class ImmArch(Peak):
        @name_outputs(res=Word, flag=Bit)
        def __call__(self, inst: Const(ImmInst), a: Word, b: Word, c: Bit) -> (Word, Bit):
            y = b
            if inst.use:
                y = inst.imm
            if inst.kind == Sparse.fwd:
                r = a + y
            elif inst.kind == Sparse.inv:
                r = (~a) & y
            else:
                r = y - a
            return r, (r == Word(0)) ^ c
    return ImmArch


@family_closure
def union_arch(family):
    """two instruction forms, two outputs of one type"""
    @family.assemble(locals(), globals())
    class UnionArch(Peak):
        def __call__(self, inst: Const(UInst), r0: Word, r1: Word) -> (Word, Word):
            if inst.rr.match:
                rr = inst.rr.value
                if rr.Alu == RR.Alu.add:
                    return r0 + r1, r0
                else:
                    return r0 & r1, r0
            else:
                ri = inst.ri.value
                if ri.Alu == RI.Alu.ld:
                    return ri.imm, r0
                else:
                    return r0 + ri.imm, r0
    return UnionArch


@family_closure
def sum_arch(family):
    """instruction is an untagged sum of a tuple and a sparse enum"""
    @family.assemble(locals(), globals())
    class SumArch(Peak):
        @name_outputs(out=Word)
        def __call__(self, inst: Const(SInst), a: Word, b: Word) -> Word:
            if inst[Pair].match:
                p = inst[Pair].value
                if p[0] == Op.add:
                    return a + b + p[1]
                elif p[0] == Op.sub:
                    return a - p[1]
                elif p[0] == Op.xor:
                    return b ^ p[1]
                else:
                    return p[1]
            else:
                e = inst[Sparse].value
                if e == Sparse.fwd:
                    return a
                elif e == Sparse.inv:
                    return ~b
                else:
                    return b - a
    return SumArch


@family_closure
def plain_arch(family):
    """no instruction at all"""
    @family.assemble(locals(), globals())
    class PlainArch(Peak):
        @name_outputs(out=Word, lsb=Bit)
        def __call__(self, a: Word, b: Word, c: Bit) -> (Word, Bit):
            return c.ite(a + b, a), a[0]
    return PlainArch


@family_closure
def signed_arch(family):
    S = family.Signed[W]

    @family.assemble(locals(), globals())
    class SignedArch(Peak):
        @name_outputs(out=S, lt=Bit)
        def __call__(self, op: Const(Bit), a: S, b: S) -> (S, Bit):
            if op:
                r = a >> b
            else:
                r = a + b
            return r, a < b
    return SignedArch


@family_closure
def bits_arch(family):
    """several bit inputs and outputs, bit-level instruction leaves"""
    B4 = family.BitVector[4]

    @family.assemble(locals(), globals())
    class BitsArch(Peak):
        @name_outputs(x=Bit, y=Bit)
        def __call__(self, lut: Const(Lut), p: Bit, q: Bit) -> (Bit, Bit):
            i = p.ite(B4(1), B4(0)) | q.ite(B4(2), B4(0))
            r = (lut.t >> i)[0] ^ lut.inv
            return r, p & q
    return BitsArch


@family_closure
def cdata_arch(family):
    """a constant plain vector and a constant that nothing reads"""
    @family.assemble(locals(), globals())
    class CDataArch(Peak):
        @name_outputs(out=Word)
        def __call__(self, mode: Const(Bit), k: Const(Word), unused: Const(Sparse), a: Word) -> Word:
            if mode:
                return a + k
            return k - a
    return CDataArch


@family_closure
def enum_data_arch(family):
    """an enumeration as a data operand"""
    @family.assemble(locals(), globals())
    class EnumDataArch(Peak):
        @name_outputs(out=Word, o=Op)
        def __call__(self, sel: Const(Bit), o: Op, a: Word, b: Word) -> (Word, Op):
            r = a
            if o == Op.add:
                r = a + b
            elif sel:
                r = b
            return r, o
    return EnumDataArch


@family_closure
def reg_arch(family):
    """stateful: an output that is the register's initial value"""
    Reg = family.gen_register(family.BitVector[W], 3)
    En = family.Bit

    @family.assemble(locals(), globals())
    class RegArch(Peak):
        def __init__(self):
            self.r = Reg()

        @name_outputs(out=Word)
        def __call__(self, inst: Const(UInst), a: Word, b: Word) -> Word:
            old = self.r(a, En(1))
            if inst.rr.match:
                return a + old
            else:
                return (b ^ inst.ri.value.imm) - old
    return RegArch


@family_closure
def two_const_arch(family):
    """two constants of one type: each may be bound in one routing and chosen in another"""
    @family.assemble(locals(), globals())
    class TwoConstArch(Peak):
        @name_outputs(out=Word)
        def __call__(self, k1: Const(Word), a: Word, k2: Const(Word)) -> Word:
            return (a ^ k1) - k2
    return TwoConstArch


class UData(TaggedUnion):
    w = Word
    pair = Tuple[Word, Bit]


@family_closure
def udata_arch(family):
    """nested composite operands and results, a tagged union as data"""
    PairT = Tuple[Word, Bit]
    mk = family.get_constructor(PairT)

    @family.assemble(locals(), globals())
    class UDataArch(Peak):
        @name_outputs(res=PairT, w=Word)
        def __call__(self, f: Const(Bit), u: UData, c: Bit) -> (PairT, Word):
            if u.w.match:
                v = u.w.value
                b = c
            else:
                v = u.pair.value[0] + 1
                b = u.pair.value[1] ^ c
            return mk(v, b ^ f), v
    return UDataArch


PairW = Tuple[Word, Bit]


class LInst(Product):
    op = Op
    arg = Sum[Word, PairW]


@family_closure
def lsum_arch(family):
    """a sum one of whose alternatives is a leaf"""
    @family.assemble(locals(), globals())
    class LSumArch(Peak):
        @name_outputs(out=Word)
        def __call__(self, inst: Const(LInst), a: Word) -> Word:
            if inst.arg[Word].match:
                r = a + inst.arg[Word].value
            else:
                t = inst.arg[PairW].value
                r = t[1].ite(t[0] - a, t[0])
            if inst.op == Op.add:
                r = ~r
            elif inst.op == Op.xor:
                r = r + 1
            return r
    return LSumArch


# ---------------------------------------------------------------- operations
def binop(name, f, T=Word):
    def fc(family):
        @family.assemble(locals(), globals())
        class Ir(Peak):
            @name_outputs(out=Word)
            def __call__(self, x: Word, y: Word) -> Word:
                return f(x, y)
        Ir.__name__ = name
        return Ir
    return family_closure(fc)


def unop(name, f):
    def fc(family):
        @family.assemble(locals(), globals())
        class Ir(Peak):
            @name_outputs(out=Word)
            def __call__(self, x: Word) -> Word:
                return f(x)
        Ir.__name__ = name
        return Ir
    return family_closure(fc)


ir_add = binop('add', lambda x, y: x + y)
ir_sub = binop('sub', lambda x, y: x - y)
ir_rsub = binop('rsub', lambda x, y: y - x)
ir_and = binop('and', lambda x, y: x & y)
ir_nand = binop('nand', lambda x, y: ~(x & y))
ir_or = binop('or', lambda x, y: x | y)
ir_xnor = binop('xnor', lambda x, y: ~(x ^ y))
ir_andn = binop('andn', lambda x, y: ~x & y)
ir_add3 = binop('addp3', lambda x, y: x + y + 3)
ir_inc = unop('inc', lambda x: x + 1)
ir_id = unop('id', lambda x: x)
ir_not = unop('not', lambda x: ~x)
ir_neg = unop('neg', lambda x: -x)
ir_m5 = unop('m5', lambda x: x - 5)
ir_r7 = unop('r7', lambda x: -x + 7)
ir_dbl = unop('dbl', lambda x: x + x)
ir_m3 = unop('m3', lambda x: x - 3)
ir_x5m3 = unop('x5m3', lambda x: (x ^ 5) - 3)
ir_p3 = unop('p3', lambda x: x + 3)


@family_closure
def ir_const(family):
    @family.assemble(locals(), globals())
    class IrConst(Peak):
        @name_outputs(out=Word)
        def __call__(self, k: Const(Word)) -> Word:
            return k
    return IrConst


@family_closure
def ir_addk(family):
    @family.assemble(locals(), globals())
    class IrAddK(Peak):
        @name_outputs(out=Word)
        def __call__(self, k: Const(Word), x: Word) -> Word:
            return x + k
    return IrAddK


@family_closure
def ir_addk5(family):
    @family.assemble(locals(), globals())
    class IrAddK5(Peak):
        @name_outputs(out=Word)
        def __call__(self, k: Const(Word), x: Word) -> Word:
            return x + k - 5
    return IrAddK5


@family_closure
def ir_xork(family):
    @family.assemble(locals(), globals())
    class IrXorK(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Word)) -> Word:
            return x ^ k
    return IrXorK


@family_closure
def ir_subk6(family):
    @family.assemble(locals(), globals())
    class IrSubK6(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Word)) -> Word:
            return (x ^ 6) - k
    return IrSubK6


@family_closure
def ir_kx3(family):
    @family.assemble(locals(), globals())
    class IrKx3(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Word)) -> Word:
            return (k ^ x) - 3
    return IrKx3


@family_closure
def ir_pairid(family):
    @family.assemble(locals(), globals())
    class IrPairId(Peak):
        @name_outputs(a=Bit, b=Word)
        def __call__(self, x: Word, y: Bit) -> (Bit, Word):
            return y, x + 1
    return IrPairId


@family_closure
def ir_notb(family):
    @family.assemble(locals(), globals())
    class IrNotB(Peak):
        @name_outputs(a=Bit)
        def __call__(self, x: Bit) -> Bit:
            return ~x
    return IrNotB


@family_closure
def ir_kind(family):
    """a constant operand of a sparse enumeration"""
    @family.assemble(locals(), globals())
    class IrKind(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Sparse)) -> Word:
            if k == Sparse.fwd:
                r = x + 5
            elif k == Sparse.inv:
                r = (~x) & 5
            else:
                r = -x + 5
            return r
    return IrKind


@family_closure
def ir_kind2(family):
    """as ir_kind, but different on bit patterns that are no member"""
    @family.assemble(locals(), globals())
    class IrKind2(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Sparse)) -> Word:
            if k == Sparse.fwd:
                r = x + 5
            elif k == Sparse.neg:
                r = -x + 5
            else:
                r = (~x) & 5
            return r
    return IrKind2


@family_closure
def ir_subk(family):
    @family.assemble(locals(), globals())
    class IrSubK(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, k: Const(Word)) -> Word:
            return x - k
    return IrSubK


@family_closure
def ir_two(family):
    """two results of one type"""
    @family.assemble(locals(), globals())
    class IrTwo(Peak):
        def __call__(self, x: Word, y: Word) -> (Word, Word):
            return x + y, y
    return IrTwo


@family_closure
def ir_zero(family):
    """a vector and a bit"""
    @family.assemble(locals(), globals())
    class IrZero(Peak):
        @name_outputs(z=Bit, v=Word)
        def __call__(self, x: Word, y: Word, c: Bit) -> (Bit, Word):
            r = y - x
            return (r == Word(0)) ^ c, r
    return IrZero


@family_closure
def ir_isz(family):
    @family.assemble(locals(), globals())
    class IrIsZ(Peak):
        @name_outputs(z=Bit)
        def __call__(self, x: Word, c: Bit) -> Bit:
            return (x == Word(6)) ^ c
    return IrIsZ


@family_closure
def ir_lsb(family):
    @family.assemble(locals(), globals())
    class IrLsb(Peak):
        @name_outputs(z=Bit)
        def __call__(self, x: Word) -> Bit:
            return x[0]
    return IrLsb


@family_closure
def ir_sshr(family):
    S = family.Signed[W]

    @family.assemble(locals(), globals())
    class IrSShr(Peak):
        @name_outputs(out=S)
        def __call__(self, x: S, y: S) -> S:
            return x >> y
    return IrSShr


@family_closure
def ir_slt(family):
    S = family.Signed[W]

    @family.assemble(locals(), globals())
    class IrSLt(Peak):
        @name_outputs(out=Bit)
        def __call__(self, x: S, y: S) -> Bit:
            return y < x
    return IrSLt


@family_closure
def ir_mux(family):
    @family.assemble(locals(), globals())
    class IrMux(Peak):
        @name_outputs(out=Word)
        def __call__(self, s: Bit, x: Word, y: Word) -> Word:
            return s.ite(x + y, x)
    return IrMux


@family_closure
def ir_bimp(family):
    @family.assemble(locals(), globals())
    class IrBImp(Peak):
        @name_outputs(z=Bit)
        def __call__(self, u: Bit, v: Bit) -> Bit:
            return ~u | v
    return IrBImp


@family_closure
def ir_bboth(family):
    @family.assemble(locals(), globals())
    class IrBBoth(Peak):
        @name_outputs(z=Bit, w=Bit)
        def __call__(self, u: Bit, v: Bit) -> (Bit, Bit):
            return u & v, u ^ v
    return IrBBoth


@family_closure
def ir_enum(family):
    @family.assemble(locals(), globals())
    class IrEnum(Peak):
        @name_outputs(out=Word)
        def __call__(self, o: Op, x: Word, y: Word) -> Word:
            r = x
            if o == Op.add:
                r = x + y
            return r
    return IrEnum


CONSTRAINTS = {
    'alu': [{('inst', 'op'): Op.add}, {('inst', 'op'): (Op.sub, Op.xor), ('inst', 'flip'): 1}, {('a',): 3}, {('a',): (0, 5)},
            {('inst', 'flip'): 0, ('b',): 0}, {('a',): 7}, {('b',): (1, 2)}],
    'imm': [{('inst', 'imm'): (1, 5)}, {('inst', 'kind'): Sparse.neg}, {('c',): 0}, {('c',): 1, ('inst', 'use'): 1},
            {('b',): (3, 4)}, {('c',): (0, 1)}, {('a',): 0}],
    'union': [{('inst', 'ri', 'imm'): 3}, {('inst', 'rr', 'Alu'): RR.Alu.band}, {('r1',): 0}, {('r0',): 0}, {('r0',): 6},
              {('r1',): 1, ('inst', 'rr', 'rd'): (1, 2)}, {('inst', 'ri', 'Alu'): (RI.Alu.ld, RI.Alu.add), ('r1',): (0, 1)}],
    'sum': [{('inst', Pair, 1): (0, 5)}, {('inst', Sparse): Sparse.fwd}, {('b',): 2}, {('b',): (0, 1)}, {('a',): 0, ('inst', Pair, 0): Op.band},
            {('a',): 7}],
    'plain': [{('c',): 1}, {('c',): 0}, {('b',): 1}, {('b',): 7, ('c',): 1}, {('c',): (0, 1)}],
    'signed': [{('op',): 0}, {('op',): 1}, {('b',): 1}],
    'bits': [{('lut', 't'): 6}, {('q',): 1}, {('lut', 'inv'): 1, ('p',): (0, 1)}, {('p',): 0}],
    'cdata': [{('k',): 5}, {('k',): (1, 7)}, {('mode',): 0}, {('unused',): Sparse.neg}],
    'enumd': [{('o',): Op.add}, {('o',): (Op.sub, Op.xor)}, {('sel',): 1}, {('o',): (Op.add, Op.sub)}, {('b',): 0}, {('b',): 1}],
    'twok': [{('k1',): 0}, {('k2',): (0, 3)}, {('k1',): (6, 7), ('k2',): 3}],
    'udata': [{('u', 'pair', 1): 0}, {('u', 'w'): 3}, {('c',): 0}, {('c',): 1}, {('f',): 1, ('c',): 1}, {('c',): (0, 1)}],
    'lsum': [{('inst', 'arg', Word): (1, 7)}, {('inst', 'arg', PairW, 1): 0}, {('inst', 'op'): (Op.xor, Op.band)}, {('inst', 'arg', PairW, 0): 5, ('a',): 1}],
    'reg': [{('inst', 'ri', 'imm'): 5}, {('inst', 'rr', 'Alu'): RR.Alu.add}, {('b',): 0}, {('a',): 1}],
}

class Constraints(dict):
    def __missing__(self, k):          # of a random architecture: random members of random inputs
        import random
        from . import maplib as L
        rng = random.Random('constraints/' + k)
        fs = L.forms(ARCH[k][0].Py.input_t)

        def value(T):
            if issubclass(T, Enum):
                return rng.choice(list(T.enumerate()))
            return rng.randrange(2 if issubclass(T, Bit) else 1 << T.size)
        out = []
        for _ in range(3):
            f = rng.choice(fs)
            c = {}
            for p in rng.sample(list(f), min(len(f), rng.choice([1, 1, 2]))):
                vs = [value(f[p][0]) for _ in range(rng.choice([1, 1, 2]))]
                c[p] = vs[0] if len(vs) == 1 else tuple(vs)
            out.append(c)
        self[k] = out
        return out


CONSTRAINTS = Constraints(CONSTRAINTS)


class Architectures(dict):
    def __missing__(self, k):          # a random architecture
        from . import randarch
        assert k.startswith('rnd'), k
        return randarch.module(k).arch, [f'{k}.o{j}' for j in range(randarch.NOPS)]


ARCH = Architectures({k: (globals()[{'enumd': 'enum_data_arch', 'twok': 'two_const_arch'}.get(k, k + '_arch')], ops) for k, ops in ARCH_OPS.items()})


@family_closure
def ir_sadd(family):
    S = family.Signed[W]

    @family.assemble(locals(), globals())
    class IrSAdd(Peak):
        @name_outputs(out=S)
        def __call__(self, x: S, y: S) -> S:
            return x + y
    return IrSAdd


def ir(name):
    if name.startswith('rnd'):
        from . import randarch
        arch, op = name.rsplit('.', 1)
        return getattr(randarch.module(arch), op)
    return globals()['ir_' + name]


# ---------------------------------------------------------------- words of many widths (serialization, building inputs)
class WideInst(Product):
    op = Op
    k33 = BitVector[33]
    k64 = BitVector[64]
    k100 = BitVector[100]
    k1 = BitVector[1]
    s40 = SIntVector[40]
    f = Bit


@family_closure
def wide_arch(family):
    @family.assemble(locals(), globals())
    class WideArch(Peak):
        @name_outputs(a=BitVector[33], b=BitVector[64], c=BitVector[100], d=Bit)
        def __call__(self, inst: Const(WideInst), x: BitVector[33], y: BitVector[64], z: BitVector[100], b: Bit
                     ) -> (BitVector[33], BitVector[64], BitVector[100], Bit):
            p = x ^ inst.k33
            q = y ^ inst.k64
            r = z ^ inst.k100
            if inst.op == Op.sub:
                p = ~p
            return p, q, r, b ^ inst.f
    return WideArch


@family_closure
def ir_wid(family):
    @family.assemble(locals(), globals())
    class IrWid(Peak):
        @name_outputs(a=BitVector[64], c=BitVector[100])
        def __call__(self, x: BitVector[64], y: BitVector[100]) -> (BitVector[64], BitVector[100]):
            return x, y
    return IrWid


@family_closure
def ir_wbit(family):
    @family.assemble(locals(), globals())
    class IrWbit(Peak):
        @name_outputs(out=Bit)
        def __call__(self, x: Bit) -> Bit:
            return ~x
    return IrWbit


@family_closure
def ir_wk(family):
    @family.assemble(locals(), globals())
    class IrWk(Peak):
        @name_outputs(out=BitVector[33])
        def __call__(self, k: Const(BitVector[33]), x: BitVector[33]) -> BitVector[33]:
            return x + k
    return IrWk


ARCH['wide'] = (wide_arch, ['wid', 'wbit', 'wk'])
