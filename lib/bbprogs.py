"""Architectures and operations over black boxes (C22).

In the Python and rewritten-Python families the body of a box asks HANDLER for its results, which stands for an arbitrary
function; in the symbolic family peak itself replaces the body."""
from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, TaggedUnion

from peak import Peak, family_closure, name_outputs, Const
from peak.black_box import BlackBox

from .mapprogs import W, Word, Op, binop, unop

HANDLER = None


def apply(name, *args):
    return HANDLER(name, args)


SIG = dict(F=([Word], [Word]), G=([Word, Word], [Word]), H=([Word], [Word, Bit]), P=([Word], [Bit]), E=([Op, Word], [Word]))


@family_closure
def F_fc(family):
    @family.assemble(locals(), globals())
    class F(Peak, BlackBox):
        def __call__(self, x: Word) -> Word:
            return apply('F', x)
    return F


@family_closure
def G_fc(family):
    @family.assemble(locals(), globals())
    class G(Peak, BlackBox):
        def __call__(self, x: Word, y: Word) -> Word:
            return apply('G', x, y)
    return G


@family_closure
def H_fc(family):
    @family.assemble(locals(), globals())
    class H(Peak, BlackBox):
        @name_outputs(val=Word, flag=Bit)
        def __call__(self, x: Word) -> (Word, Bit):
            return apply('H', x)
    return H


@family_closure
def P_fc(family):
    @family.assemble(locals(), globals())
    class P(Peak, BlackBox):
        def __call__(self, x: Word) -> Bit:
            return apply('P', x)
    return P


@family_closure
def E_fc(family):
    @family.assemble(locals(), globals())
    class E(Peak, BlackBox):
        def __call__(self, k: Op, x: Word) -> Word:
            return apply('E', k, x)
    return E


# ---------------------------------------------------------------- architectures
class UOp(Enum):
    f = 0
    ff = 1
    add = 2
    inv = 4


@family_closure
def chain_arch(family):
    """two boxes of one type in a row"""
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class Chain(Peak):
        def __init__(self):
            self.f1: F = F()
            self.f2: F = F()

        def __call__(self, op: Const(UOp), a: Word, b: Word) -> Word:
            x = self.f1(a)
            y = self.f2(x)
            if op == UOp.f:
                return x
            elif op == UOp.ff:
                return y
            elif op == UOp.add:
                return a + b
            else:
                return ~x
    return Chain


class FInst(Product):
    swap = Bit
    use = Bit
    imm = Word


@family_closure
def fpu_unit(family):
    G = G_fc(family)
    H = H_fc(family)

    @family.assemble(locals(), globals())
    class Unit(Peak):
        def __init__(self):
            self.g: G = G()
            self.h: H = H()

        @name_outputs(r=Word, w=Word, z=Bit)
        def __call__(self, p: Word, q: Word) -> (Word, Word, Bit):
            w, z = self.h(p)
            return self.g(p, q), w, z
    return Unit


@family_closure
def nested_arch(family):
    """boxes inside a sub-component, several outputs"""
    Unit = fpu_unit(family)

    @family.assemble(locals(), globals())
    class Nested(Peak):
        def __init__(self):
            self.fpu: Unit = Unit()

        @name_outputs(res=Word, alt=Word, flag=Bit)
        def __call__(self, inst: Const(FInst), a: Word, b: Word) -> (Word, Word, Bit):
            y = b
            if inst.use:
                y = inst.imm
            p = a
            q = y
            if inst.swap:
                p = y
                q = a
            r, w, z = self.fpu(p, q)
            return r, w, z
    return Nested


class EI(Product):
    k = Op


class FI(Product):
    imm = Word


class BInst(TaggedUnion):
    e = EI
    f = FI


@family_closure
def forms_arch(family):
    """two instruction forms, a box with an enumerated operand, a box applied to a constant, a predicate box"""
    E = E_fc(family)
    F = F_fc(family)
    P = P_fc(family)

    @family.assemble(locals(), globals())
    class Forms(Peak):
        def __init__(self):
            self.e: E = E()
            self.f: F = F()
            self.p: P = P()

        @name_outputs(out=Word, flag=Bit)
        def __call__(self, inst: Const(BInst), a: Word) -> (Word, Bit):
            z = self.p(a)
            if inst.e.match:
                return self.e(inst.e.value.k, a), z
            else:
                return self.f(inst.f.value.imm) + a, ~z
    return Forms


# ---------------------------------------------------------------- operations
def opf(name):
    def deco(f):
        IRS[name] = f
        return f
    return deco


IRS = {'add': binop('BAdd', lambda x, y: x + y), 'not': unop('BNot', lambda x: ~x)}


@opf('f')
@family_closure
def ir_f(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrF(Peak):
        def __init__(self):
            self.u: F = F()

        def __call__(self, x: Word) -> Word:
            return self.u(x)
    return IrF


@opf('box')
@family_closure
def ir_box(family):
    """the operation is a box itself"""
    return F_fc(family)


@opf('ff')
@family_closure
def ir_ff(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrFF(Peak):
        def __init__(self):
            self.u: F = F()
            self.v: F = F()

        def __call__(self, x: Word) -> Word:
            return self.u(self.v(x))
    return IrFF


@opf('nf')
@family_closure
def ir_nf(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrNF(Peak):
        def __init__(self):
            self.u: F = F()

        def __call__(self, x: Word) -> Word:
            return ~self.u(x)
    return IrNF


@opf('fn')
@family_closure
def ir_fn(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrFN(Peak):
        def __init__(self):
            self.u: F = F()

        def __call__(self, x: Word) -> Word:
            return self.u(~x)
    return IrFN


@opf('fff')
@family_closure
def ir_fff(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrFFF(Peak):
        def __init__(self):
            self.u: F = F()
            self.v: F = F()
            self.w: F = F()

        def __call__(self, x: Word) -> Word:
            return self.u(self.v(self.w(x)))
    return IrFFF


@opf('same')
@family_closure
def ir_same(family):
    """zero, because equal arguments give equal results"""
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrSame(Peak):
        def __init__(self):
            self.u: F = F()
            self.v: F = F()

        def __call__(self, x: Word, y: Word) -> Word:
            return (self.u(x) - self.v(x)) + x + y
    return IrSame


@opf('g')
@family_closure
def ir_g(family):
    G = G_fc(family)

    @family.assemble(locals(), globals())
    class IrG(Peak):
        def __init__(self):
            self.u: G = G()

        def __call__(self, x: Word, y: Word) -> Word:
            return self.u(x, y)
    return IrG


@opf('gk')
@family_closure
def ir_gk(family):
    """named arguments in another order, constant operand"""
    G = G_fc(family)

    @family.assemble(locals(), globals())
    class IrGK(Peak):
        def __init__(self):
            self.u: G = G()

        def __call__(self, x: Word) -> Word:
            return self.u(y=x, x=family.BitVector[W](5))
    return IrGK


@opf('gxx')
@family_closure
def ir_gxx(family):
    G = G_fc(family)

    @family.assemble(locals(), globals())
    class IrGXX(Peak):
        def __init__(self):
            self.u: G = G()

        def __call__(self, x: Word) -> Word:
            return self.u(x, x)
    return IrGXX


@opf('gh')
@family_closure
def ir_gh(family):
    """two boxes, two results"""
    G = G_fc(family)
    H = H_fc(family)

    @family.assemble(locals(), globals())
    class IrGH(Peak):
        def __init__(self):
            self.u: G = G()
            self.h: H = H()

        @name_outputs(r=Word, z=Bit)
        def __call__(self, x: Word, y: Word) -> (Word, Bit):
            w, z = self.h(x)
            return self.u(y, x), z
    return IrGH


@opf('h0')
@family_closure
def ir_h0(family):
    H = H_fc(family)

    @family.assemble(locals(), globals())
    class IrH0(Peak):
        def __init__(self):
            self.h: H = H()

        def __call__(self, x: Word) -> Word:
            w, z = self.h(x)
            return w
    return IrH0


@opf('h1')
@family_closure
def ir_h1(family):
    H = H_fc(family)

    @family.assemble(locals(), globals())
    class IrH1(Peak):
        def __init__(self):
            self.h: H = H()

        def __call__(self, x: Word) -> Bit:
            w, z = self.h(x)
            return z
    return IrH1


@opf('ex')
@family_closure
def ir_ex(family):
    E = E_fc(family)

    @family.assemble(locals(), globals())
    class IrEX(Peak):
        def __init__(self):
            self.u: E = E()

        def __call__(self, x: Word) -> Word:
            return self.u(Op.xor, x)
    return IrEX


@opf('fk')
@family_closure
def ir_fk(family):
    F = F_fc(family)

    @family.assemble(locals(), globals())
    class IrFK(Peak):
        def __init__(self):
            self.u: F = F()

        def __call__(self, x: Word) -> Word:
            return self.u(family.BitVector[W](5)) + x
    return IrFK


@opf('np')
@family_closure
def ir_np(family):
    P = P_fc(family)

    @family.assemble(locals(), globals())
    class IrNP(Peak):
        def __init__(self):
            self.u: P = P()

        def __call__(self, x: Word) -> Bit:
            return ~self.u(x)
    return IrNP


@opf('exp')
@family_closure
def ir_exp(family):
    E = E_fc(family)
    P = P_fc(family)

    @family.assemble(locals(), globals())
    class IrEXP(Peak):
        def __init__(self):
            self.u: E = E()
            self.p: P = P()

        @name_outputs(r=Word, z=Bit)
        def __call__(self, x: Word) -> (Word, Bit):
            return self.u(Op.sub, x), ~self.p(x)
    return IrEXP


ARCH = dict(chain=chain_arch, nested=nested_arch, forms=forms_arch)


def ir(name):
    return IRS[name]
