"""Programs the family-agreement checks run (C08, C14, C26...). Written like a user would, against one family."""
import functools
import itertools

from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from peak import Peak, family_closure, name_outputs, Const


class Op(Enum):
    Add = 0
    Sub = 1
    And = 2
    Xor = 3


class Sparse(Enum):
    A = 1
    B = 4
    C = 6


class Mode(Enum):
    Bypass = 0
    Delay = 1
    Valid = 2


class AluInst(Product):
    op = Op
    imm = BitVector[8]
    use_imm = Bit


class Nested(Product):
    a = AluInst
    s = Sparse
    t = Tuple[BitVector[3], Bit]


Pair = Tuple[Op, BitVector[8]]


class Union(TaggedUnion):
    alu = AluInst
    lit = BitVector[8]
    pair = Tuple[Sparse, BitVector[4]]


SumInst = Sum[BitVector[8], Pair, Sparse]


class Point(Product):
    x = BitVector[4]
    y = BitVector[4]


@family_closure
def alu_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class Alu(Peak):
        @name_outputs(res=Data, zero=family.Bit)
        def __call__(self, inst: Const(AluInst), a: Data, b: Data) -> (Data, family.Bit):
            if inst.use_imm:
                b = inst.imm
            if inst.op == Op.Add:
                res = a + b
            elif inst.op == Op.Sub:
                res = a - b
            elif inst.op == Op.And:
                res = a & b
            else:
                res = a ^ b
            return res, res == Data(0)
    return Alu


@family_closure
def early_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class Early(Peak):
        def __call__(self, a: Data, b: Data, c: family.Bit) -> Data:
            if c:
                if a < b:
                    return a
                a = b - a
            elif a == b:
                return a + Data(1)
            if a > Data(100):
                return b
            return a ^ b
    return Early


@family_closure
def nested_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class NestedP(Peak):
        def __call__(self, inst: Nested, a: Data, b: Data) -> Data:
            x = a
            if inst.s == Sparse.A:
                x = a + b
                if inst.t[1]:
                    x = x + inst.t[0].zext(5)
            elif inst.s == Sparse.B:
                if inst.a.use_imm:
                    x = inst.a.imm
                else:
                    x = b
            else:
                x = ~a
            if inst.a.op != Op.And:
                x = x | Data(1)
            return x
    return NestedP


@family_closure
def union_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class UnionP(Peak):
        def __call__(self, inst: Const(Union), a: Data) -> (Data, family.Bit):
            flag = family.Bit(0)
            if inst.alu.match:
                alu = inst.alu.value
                if alu.op == Op.Sub:
                    res = a - alu.imm
                else:
                    res = a + alu.imm
                flag = alu.use_imm
            elif inst.lit.match:
                res = inst.lit.value
            else:
                pair = inst.pair.value
                res = pair[1].sext(4)
                if pair[0] == Sparse.C:
                    res = res ^ a
                    flag = family.Bit(1)
            return res, flag
    return UnionP


@family_closure
def sum_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class SumP(Peak):
        def __call__(self, inst: SumInst, a: Data) -> Data:
            if inst[BitVector[8]].match:
                return a & inst[BitVector[8]].value
            elif inst[Pair].match:
                p = inst[Pair].value
                if p[0] == Op.Add:
                    return a + p[1]
                return a - p[1]
            else:
                e = inst[Sparse].value
                if e == Sparse.B:
                    return ~a
                return a
    return SumP


@family_closure
def signed_fc(family):
    S = family.Signed[6]
    U = family.Unsigned[6]
    D = family.BitVector[6]

    @family.assemble(locals(), globals())
    class SignedP(Peak):
        @name_outputs(lt=family.Bit, sh=D, ash=S, mx=S, ult=family.Bit)
        def __call__(self, a: S, b: S, u: U, v: U) -> (family.Bit, D, S, S, family.Bit):
            lt = a < b
            mx = b
            if a > b:
                mx = a
            return lt, D(u) >> D(v), a >> b, mx, u < v
    return SignedP


@family_closure
def ops_fc(family):
    D = family.BitVector[8]
    N = family.BitVector[4]

    @family.assemble(locals(), globals())
    class Ops(Peak):
        def __call__(self, a: D, b: D, c: family.Bit) -> (D, D, D, N, family.Bit, D, D):
            lo = a[0:4]
            hi = b[4:8]
            cat = lo.concat(hi)
            sh = (a << b) | (b >> a)
            m = a * b
            any_ = (a != D(0)) & ~(b == D(255))
            s = c.ite(a, b)
            t = ((a == b) | c).ite(lo.zext(4), hi.sext(4))
            return cat, sh, m, lo ^ hi, any_, s, t
    return Ops


@family_closure
def counter_fc(family):
    D = family.BitVector[4]
    Reg = family.gen_register(D, 5)

    @family.assemble(locals(), globals())
    class Counter(Peak):
        def __init__(self):
            self.cnt = Reg()

        def __call__(self, en: family.Bit, clr: family.Bit, step: D) -> D:
            nxt = self.cnt.prev() + step
            if clr:
                nxt = D(0)
            return self.cnt(nxt, en | clr)
    return Counter


@family_closure
def pipe_fc(family):
    D = family.BitVector[4]
    R1 = family.gen_register(D, 3, has_enable=False)
    R2 = family.gen_register(D, 9)

    @family.assemble(locals(), globals())
    class Pipe(Peak):
        def __init__(self):
            self.r1 = R1()
            self.r2 = R2()

        def __call__(self, a: D, en: family.Bit) -> (D, D):
            x = self.r1(a)
            y = self.r2(x, en)
            return x + y, y
    return Pipe


@family_closure
def sub_fc(family):
    """two instances of one sub-component, plus a helper component with several outputs"""
    D = family.BitVector[8]
    Alu = alu_fc(family)
    Early = early_fc(family)

    @family.assemble(locals(), globals())
    class SubP(Peak):
        def __init__(self):
            self.alu0 = Alu()
            self.alu1 = Alu()
            self.early = Early()

        def __call__(self, i0: AluInst, i1: AluInst, a: D, b: D) -> (D, family.Bit):
            x, z0 = self.alu0(i0, a, b)
            y, z1 = self.alu1(i1, x, b)
            w = self.early(x, y, z0)
            return w, z1
    return SubP


@family_closure
def regpe_fc(family):
    """register modes chosen by the instruction"""
    D = family.BitVector[4]
    Reg = family.gen_register(D, 0)

    @family.assemble(locals(), globals())
    class RegPE(Peak):
        def __init__(self):
            self.r = Reg()

        def __call__(self, mode: Const(Mode), a: D, v: family.Bit) -> D:
            if mode == Mode.Delay:
                en = family.Bit(1)
            elif mode == Mode.Valid:
                en = v
            else:
                en = family.Bit(0)
            d = self.r(a, en)
            out = d
            if mode == Mode.Bypass:
                out = a
            return out
    return RegPE


@family_closure
def attr_fc(family):
    D = family.BitVector[4]
    Reg = family.gen_attr_register(D, 7)
    Flag = family.gen_attr_register(family.Bit, 0)

    @family.assemble(locals(), globals())
    class Attr(Peak):
        def __init__(self):
            self.acc = Reg()
            self.old = Reg()
            self.ovf = Flag()

        def __call__(self, a: D, rst: family.Bit) -> (D, D, family.Bit):
            cur = self.acc
            prev = self.old
            f = self.ovf
            nxt = cur + a
            if rst:
                self.acc = D(0)
                self.ovf = family.Bit(0)
            else:
                self.acc = nxt
                if nxt < cur:
                    self.ovf = family.Bit(1)
            self.old = cur
            return cur, prev, f
    return Attr


@family_closure
def adt_state_fc(family):
    """register holding an enum"""
    M = family.get_adt_t(Mode)
    D = family.BitVector[4]
    Reg = family.gen_attr_register(M, Mode.Delay)

    @family.assemble(locals(), globals())
    class Fsm(Peak):
        def __init__(self):
            self.st = Reg()

        def __call__(self, go: family.Bit, d: D) -> (Mode, D):
            cur = self.st
            out = d
            if cur == Mode.Bypass:
                if go:
                    self.st = M(Mode.Delay)
            elif cur == Mode.Delay:
                self.st = M(Mode.Valid)
                out = d + D(1)
            elif go:
                self.st = M(Mode.Bypass)
                out = ~d
            return cur, out
    return Fsm


@family_closure
def build_fc(family):
    """builds and returns composite values"""
    D = family.BitVector[4]
    mk_point = family.get_constructor(Point)
    mk_union = family.get_constructor(Union)
    mk_tuple = family.get_constructor(Tuple[BitVector[3], Bit])

    @family.assemble(locals(), globals())
    class Build(Peak):
        @name_outputs(p=Point, u=Union, t=Tuple[BitVector[3], Bit])
        def __call__(self, q: Point, a: D, c: family.Bit) -> (Point, Union, Tuple[BitVector[3], Bit]):
            p = mk_point(x=q.y, y=a)
            lit = q.x.concat(a)
            u = mk_union(lit=lit)
            return p, u, mk_tuple(a[0:3], c)
    return Build


@family_closure
def swap_fc(family):
    """simultaneous rebinding, reuse of names, branch-local temporaries"""
    D = family.BitVector[6]

    @family.assemble(locals(), globals())
    class Swap(Peak):
        def __call__(self, a: D, b: D, c: family.Bit, d: family.Bit) -> (D, D):
            if c:
                a, b = b, a
            t = a
            if d:
                t2 = t + b
                t = t2 ^ a
                a = t2
            else:
                t2 = b
            if c & ~d:
                t2 = t
                b = a + t2
            return a - t2, b ^ t
    return Swap


@family_closure
def boolops_fc(family):
    D = family.BitVector[3]

    @family.assemble(locals(), globals())
    class BoolOps(Peak):
        def __call__(self, a: D, b: D, c: family.Bit) -> (family.Bit, D):
            f = (a == b) | ((a < b) & ~c) ^ c
            g = ~f
            r = D(0)
            if f & (a != D(7)):
                r = D(1)
            elif g | (b >= a):
                r = D(2)
                if not_equal(a, b, c):
                    r = D(3)
            return f, r
    return BoolOps


def not_equal(a, b, c):
    return (a != b) & c


@family_closure
def hier_fc(family):
    """three levels with state at two of them"""
    D = family.BitVector[4]
    Counter = counter_fc(family)
    Pipe = pipe_fc(family)

    @family.assemble(locals(), globals())
    class Hier(Peak):
        def __init__(self):
            self.c = Counter()
            self.p = Pipe()

        def __call__(self, en: family.Bit, clr: family.Bit, a: D) -> D:
            c = self.c(en, clr, a)
            s, y = self.p(c, en)
            res = s
            if clr:
                res = y
            return res
    return Hier


# name -> (closure, steps to unroll)
CORPUS = {
    'alu': (alu_fc, 1), 'early': (early_fc, 1), 'nested': (nested_fc, 1), 'union': (union_fc, 1), 'sum': (sum_fc, 1),
    'signed': (signed_fc, 1), 'ops': (ops_fc, 1), 'counter': (counter_fc, 3), 'pipe': (pipe_fc, 3), 'sub': (sub_fc, 1),
    'regpe': (regpe_fc, 3), 'attr': (attr_fc, 3), 'adt_state': (adt_state_fc, 3), 'build': (build_fc, 1),
    'swap': (swap_fc, 1), 'boolops': (boolops_fc, 1), 'hier': (hier_fc, 3),
}


# ---------------------------------------------------------------- random programs
def gen_source(rng, name, stateful, hw=False):
    """source of one random family closure"""
    W = rng.choice([3, 4, 6])
    nd, nb = rng.randint(1, 3), rng.randint(0, 2)
    data = [f'd{i}' for i in range(nd)]
    bits = [f'c{i}' for i in range(nb)]
    L = []
    state = [f'r{i}' for i in range(rng.randint(1, 2))] if stateful else []
    use_enum = rng.random() < 0.5

    def dexp(d, dv, bv):
        if d == 0 or rng.random() < 0.2:
            return rng.choice(dv) if rng.random() < 0.8 else f'D({rng.randrange(1 << W)})'
        k = rng.randrange(9)
        a, b = dexp(d - 1, dv, bv), dexp(d - 1, dv, bv)
        if k < 5:
            return f'({a} {rng.choice("+-&|^")} {b})'
        if k == 5:
            return f'(~{a})'
        if k == 6:
            return f'({bexp(d - 1, dv, bv)}).ite({a}, {b})'
        if k == 7:
            return f'({a} {rng.choice(["<<", ">>"])} {b})'
        j = rng.randint(1, W - 1)
        x = rng.choice(["zext", "sext"])
        return f'({a})[0:{j}].{"zext" if hw else x}({W - j})'

    def bexp(d, dv, bv):
        if bv and (d == 0 or rng.random() < 0.3):
            return rng.choice(bv)
        if d <= 0 or rng.random() < 0.6:
            return f'({dexp(max(d - 1, 0), dv, bv)} {rng.choice(["==", "!=", "<", "<=", ">", ">="])} {dexp(max(d - 1, 0), dv, bv)})'
        return rng.choice([f'({bexp(d - 1, dv, bv)} & {bexp(d - 1, dv, bv)})', f'({bexp(d - 1, dv, bv)} | {bexp(d - 1, dv, bv)})',
                           f'(~{bexp(d - 1, dv, bv)})', f'({bexp(d - 1, dv, bv)} ^ {bexp(d - 1, dv, bv)})'])

    tmp = itertools.count()

    def block(ind, depth, dv, bv):
        """statements; returns the names defined afterwards"""
        dv, bv = list(dv), list(bv)
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.45 or depth == 0:
                if rng.random() < 0.6:
                    v = rng.choice([x for x in dv if x[0] != '_'] + [f't{next(tmp)}'])
                    L.append(f'{ind}{v} = {dexp(2, dv, bv)}')
                    if v not in dv:
                        dv.append(v)
                else:
                    v = rng.choice(bv + [f'b{next(tmp)}'])
                    L.append(f'{ind}{v} = {bexp(1, dv, bv)}')
                    if v not in bv:
                        bv.append(v)
            elif r < 0.85:
                if use_enum and rng.random() < 0.4:
                    L.append(f'{ind}if e == Op.{rng.choice(["Add", "Sub", "And", "Xor"])}:')
                else:
                    L.append(f'{ind}if {bexp(1, dv, bv)}:')
                d1, b1 = block(ind + '    ', depth - 1, dv, bv)
                k = rng.random()
                if k < 0.25:
                    L.append(f'{ind}elif {bexp(1, dv, bv)}:')
                    d3, b3 = block(ind + '    ', depth - 1, dv, bv)
                    L.append(f'{ind}else:')
                    d2, b2 = block(ind + '    ', depth - 1, dv, bv)
                    d2 = [x for x in d2 if x in d3]
                    b2 = [x for x in b2 if x in b3]
                elif k < 0.7:
                    L.append(f'{ind}else:')
                    d2, b2 = block(ind + '    ', depth - 1, dv, bv)
                else:
                    d2, b2 = dv, bv
                dv = [x for x in d1 if x in d2]
                bv = [x for x in b1 if x in b2]
            elif not state:
                L.append(f'{ind}if {bexp(1, dv, bv)}:')
                L.append(f'{ind}    return {dexp(1, dv, bv)}, {bexp(1, dv, bv)}')
            else:
                L.append(f'{ind}self.{rng.choice(state)} = {dexp(2, dv, bv)}')
        return dv, bv

    args = ', '.join([f'{d}: D' for d in data] + [f'{b}: B' for b in bits] + (['e: Op'] if use_enum else []))
    head = ['@family_closure', f'def {name}(family):', f'    D = family.{"Unsigned" if hw else "BitVector"}[{W}]', '    B = family.Bit']
    for i, s in enumerate(state):
        head.append(f'    R{i} = family.gen_attr_register(D, {rng.randrange(1 << W)})')
    head += ['    @family.assemble(locals(), globals())', '    class P(Peak):']
    if state:
        head.append('        def __init__(self):')
        for i, s in enumerate(state):
            head.append(f'            self.{s} = R{i}()')
    head.append(f'        def __call__(self, {args}) -> (D, B):')
    ind = ' ' * 12
    dv = list(data)
    for s in state:
        L.append(f'{ind}v_{s} = self.{s}')
        dv.append(f'v_{s}')
    dv, bv = block(ind, 2, dv, bits)
    if state:
        L.append(f'{ind}self.{state[0]} = {dexp(1, dv, bv)}')
    if hw:                              # magma refuses registers that are never driven
        for s in state:
            if not any(f'self.{s} = ' in l for l in L):
                L.append(f'{ind}self.{s} = {dexp(1, dv, bv)}')
    L.append(f'{ind}return {dexp(2, dv, bv)}, {bexp(1, dv, bv)}')
    return '\n'.join(head + L + ['    return P']) + '\n'


HEAD = '''from peak import Peak, family_closure
from hwtypes.adt import Enum
from lib.programs import Op

'''


@functools.lru_cache(None)     # the programs depend on nothing symbolic: built once per process
def random_programs(seed, n, stateful, hw=False):
    """writes a module into the scratch directory and imports it"""
    import importlib.util
    import os
    import random
    rng = random.Random(f'{seed}/{stateful}/{hw}' if hw else f'{seed}/{stateful}')
    src = HEAD
    names = []
    for i in range(n):
        nm = f'rp{"s" if stateful else "c"}{i}'
        src += gen_source(rng, nm, stateful, hw) + '\n'
        names.append(nm)
    path = os.path.join(os.getcwd(), f'random_programs_{seed}_{int(stateful)}{int(hw)}.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(f'random_programs_{seed}_{int(stateful)}{int(hw)}', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return {nm: getattr(mod, nm) for nm in names}
