"""Running one program in several families on shared symbolic inputs."""
import hwtypes
import z3
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from hwtypes.adt_util import rebind_type
from hwtypes.modifiers import strip_modifiers

from . import enc
from .ctx import z3_of, pysmt_to_z3


def is_adt(T):
    return not enc.is_leaf(T)


def py_type(T):
    """Python version of a (possibly modified, possibly symbolic-family) type"""
    T = strip_modifiers(T)
    if not enc.is_leaf(T):
        return rebind_type(T, BitVector.get_family())
    return leaf_in(T, BitVector.get_family())


def leaf_in(T, fam):
    """the leaf type in another hwtypes family (rebind_type would drop the signedness)"""
    if issubclass(T, hwtypes.AbstractBit):
        return fam.Bit
    f = T.get_family()
    kind = fam.Signed if issubclass(T, f.Signed) else fam.Unsigned if issubclass(T, f.Unsigned) else fam.BitVector
    return kind[T.size]


class Input:
    """one argument of one call, in every family"""

    def __init__(self, ctx, T, name):
        from peak.assembler import Assembler
        self.T = T = py_type(T)
        self.name = name
        if is_adt(T):
            self.asm = Assembler(T)
            self.w = self.asm.width
            self.op = BitVector[self.w](ctx.raw(name, self.w))
            self.valid = self.asm.is_valid(self.op)
            ctx.assume(self.valid)
        self.ctx = ctx

    def py(self):
        if is_adt(self.T):
            return self.asm.disassemble(self.op)
        if issubclass(self.T, hwtypes.AbstractBit):
            return self.T(self.ctx.rawbool(self.name))
        return self.T(self.ctx.raw(self.name, self.T.size))

    def asm_value(self, fam):
        """Python-family value with composites in assembled form"""
        if is_adt(self.T):
            return fam.get_adt_t(self.T)(self.op)
        return self.py()

    def smt(self, fam, T):
        """T: the type the symbolic class declares for this argument"""
        from peak.assembler.assembled_adt import AssembledADTMeta
        if is_adt(self.T):
            bv = self.ctx.smt_bv(self.name, self.w) if self.w else None
            T = strip_modifiers(T)
            return (T if isinstance(T, AssembledADTMeta) else fam.get_adt_t(T))(bv)
        if issubclass(self.T, hwtypes.AbstractBit):
            return self.ctx.smt_bit(self.name)
        return self.ctx.smt_bv(self.name, self.T.size, leaf_in(self.T, SMTBitVector.get_family()).unsized_t)


def bits(v):
    """canonical bits of an output value in any family"""
    from peak.assembler import Assembler, AssembledADT
    if isinstance(v, AssembledADT):
        return v._value_
    if isinstance(v, (Enum, Product, Tuple, Sum)):
        return Assembler(type(v)).assemble(v)
    return v


def as_tuple(out):
    from peak.assembler import AssembledADT
    if isinstance(out, (Product, Tuple)) or isinstance(out, AssembledADT):
        return (out,)
    return out if isinstance(out, tuple) else (out,)


def eq(ctx, a, b, T):
    """equality of two outputs (padding of unions ignored)"""
    x, y = bits(a), bits(b)
    if is_adt(T):
        from peak.assembler import Assembler
        w = Assembler(T).width
        zx, zy = z3_of(x), z3_of(y)
        if w == 0:
            return True
        return zx == zy
    return ctx.same_value(x, y) if not isinstance(x, (SMTBit, SMTBitVector)) and not isinstance(y, (SMTBit, SMTBitVector)) \
        else ctx.same(x, y)


def Assembler_width(T):
    """bits of a value of the Python type T"""
    if is_adt(T):
        from peak.assembler import Assembler
        return Assembler(T).width
    return 1 if issubclass(T, hwtypes.AbstractBit) else T.size
