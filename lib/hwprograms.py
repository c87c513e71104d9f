"""Programs the hardware check (C14) adds to the common corpus: written inside the operator set magma provides
(ordered comparison and sign extension need Unsigned/Signed there)."""
from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from peak import Peak, family_closure, name_outputs, Const
from lib.programs import Op, Sparse, Mode, AluInst, Nested, Pair, Union, SumInst, Point, alu_fc, counter_fc


@family_closure
def h_early_fc(family):
    Data = family.Unsigned[8]

    @family.assemble(locals(), globals())
    class HEarly(Peak):
        def __call__(self, a: Data, b: Data, c: family.Bit) -> Data:
            if c:
                if a < b:
                    return a
                a = b - a
            elif a == b:
                return a + Data(1)
            if a > Data(100):
                return b
            return a ^ b
    return HEarly


@family_closure
def h_union_fc(family):
    Data = family.BitVector[8]

    @family.assemble(locals(), globals())
    class HUnion(Peak):
        def __call__(self, inst: Const(Union), a: Data) -> (Data, family.Bit):
            flag = family.Bit(0)
            if inst.alu.match:
                alu = inst.alu.value
                if alu.op == Op.Sub:
                    res = a - alu.imm
                else:
                    res = a + alu.imm
                flag = alu.use_imm
            elif inst.lit.match:
                res = inst.lit.value
            else:
                pair = inst.pair.value
                res = pair[1].zext(4)
                if pair[0] == Sparse.C:
                    res = res ^ a
                    flag = family.Bit(1)
            return res, flag
    return HUnion


@family_closure
def h_ops_fc(family):
    D = family.BitVector[8]
    N = family.BitVector[4]
    U = family.Unsigned[4]
    S = family.Signed[4]

    @family.assemble(locals(), globals())
    class HOps(Peak):
        def __call__(self, a: D, b: D, c: family.Bit, u: U, s: S) -> (D, D, D, N, family.Bit, D, D, family.Bit, family.Bit, S):
            lo = a[0:4]
            hi = b[4:8]
            cat = lo.concat(hi)
            sh = (a << b) | (b >> a)
            m = a * b
            any_ = (a != D(0)) & ~(b == D(255))
            sel = c.ite(a, b)
            t = ((a == b) | c).ite(lo.zext(4), hi.zext(4))
            return cat, sh, m, lo ^ hi, any_, sel, t, u >= U(9), s < S(-3), s >> S(u)
    return HOps


@family_closure
def h_attr_fc(family):
    D = family.Unsigned[4]
    Reg = family.gen_attr_register(D, 7)
    Flag = family.gen_attr_register(family.Bit, 0)

    @family.assemble(locals(), globals())
    class HAttr(Peak):
        def __init__(self):
            self.acc = Reg()
            self.old = Reg()
            self.ovf = Flag()

        def __call__(self, a: D, rst: family.Bit) -> (D, D, family.Bit):
            cur = self.acc
            prev = self.old
            f = self.ovf
            nxt = cur + a
            if rst:
                self.acc = D(0)
                self.ovf = family.Bit(0)
            else:
                self.acc = nxt
                if nxt < cur:
                    self.ovf = family.Bit(1)
            self.old = cur
            return cur, prev, f
    return HAttr


@family_closure
def h_hold_fc(family):
    """attribute registers kept on some paths, read after write, swapped"""
    D = family.BitVector[4]
    R = family.gen_attr_register(D, 9)
    Q = family.gen_attr_register(D, 2)

    @family.assemble(locals(), globals())
    class HHold(Peak):
        def __init__(self):
            self.p = R()
            self.q = Q()

        def __call__(self, a: D, c: family.Bit, d: family.Bit) -> (D, D):
            x = self.p
            y = self.q
            if c:
                self.p = y
                self.q = x
            elif d:
                self.p = a
            return x, y
    return HHold


@family_closure
def h_signedreg_fc(family):
    S = family.Signed[5]
    Reg = family.gen_register(S, -3)
    NoEn = family.gen_register(S, 4, has_enable=False)
    B = family.gen_register(family.Bit, 1)

    @family.assemble(locals(), globals())
    class HSReg(Peak):
        def __init__(self):
            self.m = Reg()
            self.l = NoEn()
            self.b = B()

        def __call__(self, a: S, en: family.Bit) -> (S, S, family.Bit):
            m = self.m.prev()
            upd = en & (m < a)
            o = self.m(a, upd)
            l = self.l(o)
            f = self.b(upd, en)
            return o, l, f
    return HSReg


@family_closure
def h_sub_fc(family):
    D = family.BitVector[8]
    Alu = alu_fc(family)

    @family.assemble(locals(), globals())
    class HSub(Peak):
        def __init__(self):
            self.alu0 = Alu()
            self.alu1 = Alu()

        def __call__(self, i0: AluInst, i1: AluInst, a: D, b: D) -> (D, family.Bit):
            x, z0 = self.alu0(i0, a, b)
            y, z1 = self.alu1(i1, x, b)
            return y, z0 ^ z1
    return HSub


@family_closure
def h_two_fc(family):
    """two instances of one stateful component"""
    D = family.BitVector[4]
    Counter = counter_fc(family)

    @family.assemble(locals(), globals())
    class HTwo(Peak):
        def __init__(self):
            self.c0 = Counter()
            self.c1 = Counter()

        def __call__(self, a: D, e: family.Bit, f: family.Bit) -> (D, D):
            p = self.c0(e, f, a)
            q = self.c1(f, family.Bit(0), p)
            return p, q
    return HTwo


@family_closure
def h_named_fc(family):
    """output ports named after the declared results"""
    D = family.BitVector[4]

    @family.assemble(locals(), globals(), set_port_names=True)
    class HNamed(Peak):
        @name_outputs(low=D, flag=family.Bit, high=D)
        def __call__(self, a: D, b: D) -> (D, family.Bit, D):
            return a & b, a == b, a | b
    return HNamed


class I2(Product):
    op0 = Op
    sel = Bit
    k = BitVector[3]
    sub = AluInst
    op1 = Sparse


@family_closure
def h_wrapped_fc(family):
    D = family.BitVector[8]

    @family.assemble(locals(), globals())
    class HWrapped(Peak):
        def __call__(self, inst: Const(I2), a: D, b: D) -> (D, D):
            r = a
            if inst.op0 == Op.Add:
                r = a + b
            elif inst.op0 == Op.Xor:
                r = a ^ inst.sub.imm
            if inst.sel:
                r = r + inst.k.zext(5)
            s = b
            if inst.op1 == Sparse.C:
                s = ~r
            elif inst.sub.use_imm:
                if inst.sub.op == Op.And:
                    s = inst.sub.imm
            return r, s
    return HWrapped


HW = {
    'early': (h_early_fc, 1), 'union': (h_union_fc, 1), 'ops': (h_ops_fc, 1), 'attr': (h_attr_fc, 3), 'hold': (h_hold_fc, 3),
    'signedreg': (h_signedreg_fc, 3), 'sub': (h_sub_fc, 1), 'two': (h_two_fc, 3), 'named': (h_named_fc, 1), 'wrapped': (h_wrapped_fc, 1),
}
