"""Operations and architectures for multi-instruction rules (C24)."""
from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, Tuple, TaggedUnion

from peak import Peak, family_closure, name_outputs, Const

from . import mapprogs as P, bbprogs as B
from .mapprogs import W, Word, Op, Sparse

Pair = Tuple[Word, Bit]


class Uni(TaggedUnion):
    w = Word
    p = Pair


def op3(name, f):
    def fc(family):
        @family.assemble(locals(), globals())
        class Ir(Peak):
            def __call__(self, x: Word, y: Word, z: Word) -> Word:
                return f(x, y, z)
        Ir.__name__ = name
        return Ir
    return family_closure(fc)


def bit3(name, f):
    def fc(family):
        @family.assemble(locals(), globals())
        class Ir(Peak):
            def __call__(self, x: Bit, y: Bit, z: Bit) -> Bit:
                return f(x, y, z)
        Ir.__name__ = name
        return Ir
    return family_closure(fc)


IR = {
    'add3': op3('MAdd3', lambda x, y, z: x + y + z),
    'submask': op3('MSubMask', lambda x, y, z: (x - y) & z),
    'maskadd': op3('MMaskAdd', lambda x, y, z: (x & y) + z),
    'nandx': op3('MNandX', lambda x, y, z: ~(x ^ (y & z))),
    'xor3': bit3('MXor3', lambda x, y, z: x ^ y ^ z),
    'maj': bit3('MMaj', lambda x, y, z: (x & y) | (x & z) | (y & z)),
    'andor': bit3('MAndOr', lambda x, y, z: (x & y) | z),
    'add5': P.unop('MAdd5', lambda x: x + 5),
    'x2m': P.binop('MX2M', lambda x, y: (x ^ y) + x),
}


@family_closure
def enum_swap(family):
    """results and operands that are enumerations and pairs"""
    mk = family.get_constructor(Pair)
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class EnumSwap(Peak):
        @name_outputs(res=Pair, kind=Sparse)
        def __call__(self, p: Pair, k: Sparse) -> (Pair, Sparse):
            b = p[1]
            if k == Sparse.inv:
                b = ~b
            return mk(p[0] + 1, b), k
    return EnumSwap


IR['eswap'] = enum_swap


@family_closure
def enum_twice(family):
    mk = family.get_constructor(Pair)
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class EnumTwice(Peak):
        @name_outputs(res=Pair)
        def __call__(self, p: Pair, k: Sparse) -> Pair:
            return mk(p[0] + 2, p[1])
    return EnumTwice


IR['etwice'] = enum_twice


@family_closure
def sparse_match(family):
    """different from `fwd` only on codes that are no member"""
    mk = family.get_constructor(Pair)
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class SparseMatch(Peak):
        @name_outputs(res=Pair)
        def __call__(self, p: Pair, k: Sparse) -> Pair:
            b = p[1]
            n = C(1)
            if k == Sparse.fwd:
                n = C(0)
            elif k == Sparse.inv:
                b = ~b
            elif k == Sparse.neg:
                n = C(1)
            else:
                n = C(4)
            return mk(p[0] + n, b)
    return SparseMatch


IR['esparse'] = sparse_match


@family_closure
def uni_get(family):
    @family.assemble(locals(), globals())
    class UniGet(Peak):
        def __call__(self, u: Uni) -> Word:
            if u.w.match:
                return u.w.value
            else:
                return u.p.value[0]
    return UniGet


IR['uget'] = uni_get


@family_closure
def pair_arch(family):
    """composite operands and results; an enumeration operand"""
    mk = family.get_constructor(Pair)
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class PairArch(Peak):
        @name_outputs(res=Pair, kind=Sparse)
        def __call__(self, k: Sparse, inst: Const(Op), p: Pair) -> (Pair, Sparse):
            b = p[1]
            n = C(0)
            if inst == Op.add:
                n = C(1)
                if k == Sparse.inv:
                    b = ~b
            elif inst == Op.sub:
                if k == Sparse.fwd:
                    n = C(0)
                elif k == Sparse.inv:
                    b = ~b
                else:
                    n = C(1)
            elif inst == Op.xor:
                n = C(1)
            return mk(p[0] + n, b), k
    return PairArch


@family_closure
def uni_arch(family):
    """a tagged union as an operand"""
    @family.assemble(locals(), globals())
    class UniArch(Peak):
        @name_outputs(out=Word, k=Word)
        def __call__(self, imm: Const(Word), u: Uni, a: Word) -> (Word, Word):
            if u.w.match:
                r = u.w.value
            else:
                r = u.p.value[0]
            return r + imm, a ^ imm
    return UniArch


@family_closure
def kimm_arch(family):
    """the constant is a plain vector"""
    @family.assemble(locals(), globals())
    class KImmArch(Peak):
        @name_outputs(out=Word, lt=Bit)
        def __call__(self, a: Word, k: Const(Word), c: Bit) -> (Word, Bit):
            return c.ite(a + k, a ^ k), a == k
    return KImmArch


@family_closure
def fan_arch(family):
    """nothing is passed through: a third instruction needs the results of both others"""
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class FanArch(Peak):
        @name_outputs(w=Word, c=Bit)
        def __call__(self, op: Const(Sparse), a: Word, b: Bit) -> (Word, Bit):
            w = C(0)
            c = family.Bit(0)
            if op == Sparse.fwd:
                w = a + 3
            elif op == Sparse.inv:
                c = ~b
            else:
                w = b.ite(a, C(0))
            return w, c
    return FanArch


@family_closure
def fan_op(family):
    C = family.BitVector[W]

    @family.assemble(locals(), globals())
    class FanOp(Peak):
        def __call__(self, x: Word, y: Bit) -> Word:
            r = x + 3
            return y.ite(C(0), r)
    return FanOp


IR['fan'] = fan_op
ARCH = {k: v[0] for k, v in P.ARCH.items()}
ARCH.update(B.ARCH)
ARCH.update(pair=pair_arch, uni=uni_arch, fan=fan_arch, kimm=kimm_arch)


@family_closure
def cond_add(family):
    @family.assemble(locals(), globals())
    class CondAdd(Peak):
        @name_outputs(out=Word)
        def __call__(self, x: Word, c: Bit, d: Bit) -> Word:
            r = c.ite(x + 3, x ^ 3)
            return d.ite(r + 3, r ^ 3)
    return CondAdd


@family_closure
def is_six(family):
    @family.assemble(locals(), globals())
    class IsSix(Peak):
        def __call__(self, x: Word, c: Bit) -> Bit:
            return c.ite(x + 1, x ^ 1) == Word(6)
    return IsSix


IR.update(cadd=cond_add, six=is_six)


def ir(arch, name):
    if name in IR:
        return IR[name]
    return B.ir(name) if arch in B.ARCH else P.ir(name)
