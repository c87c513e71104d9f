"""Makes hwtypes' concrete bit vectors able to carry symbolic values.

hwtypes is a dependency, not the code under test.  The methods replaced here
are the ones whose Python implementation would otherwise force a symbolic value
to be enumerated (bool(), int(), hash(), f-strings); each replacement computes
the same function on the z3 terms and falls back to the original for concrete
operands.  `selftest()` compares every replaced operation with the original on
all operands of small widths.
"""
import functools
import z3
import hwtypes
import hwtypes.bit_vector as hbv
from hwtypes import Bit, BitVector, SIntVector
from . import symex
from .symex import SymInt, SymBool, is_sym

_installed = False


def _b2i(v):
    return v.as_symint() if type(v) is SymBool else v


def install():
    global _installed
    if _installed:
        return
    _installed = True

    # ---- Bit
    o_init = Bit.__init__

    def bit_init(self, value):
        if type(value) is SymBool:
            self._value = value
        elif type(value) is SymInt:
            if value.lo < 0 or value.hi > 1:
                if (value < 0) or (value > 1):
                    raise ValueError('Bit must have value 0 or 1')
            self._value = symex.sym_bool(value != 0)
        elif isinstance(value, BitVector) and is_sym(value._value):
            # mirrors `hasattr(value, '__bool__')`
            self._value = symex.sym_bool(value._value != 0)
        else:
            o_init(self, value)
    Bit.__init__ = bit_init

    o_inv = Bit.__invert__

    def bit_inv(self):
        if is_sym(self._value):
            return type(self)(self._value == False)   # noqa: E712
        return o_inv(self)
    Bit.__invert__ = bit_inv

    o_bool = Bit.__bool__
    Bit.__bool__ = lambda self: bool(self._value) if is_sym(self._value) else o_bool(self)
    Bit.__int__ = lambda self: int(bool(self._value))
    Bit.__sym_int__ = lambda self: _b2i(self._value) if is_sym(self._value) else int(self._value)
    Bit.__hash__ = lambda self: hash((type(self), bool(self._value)))

    o_ite = Bit.ite

    def merge(sel, t, f):
        """merged value or None when the branches cannot be merged as one type"""
        if isinstance(t, tuple) and isinstance(f, tuple) and len(t) == len(f):
            r = [merge(sel, a, b) for a, b in zip(t, f)]
            return None if any(x is None for x in r) else tuple(r)
        if type(t) is not type(f):
            return None
        if isinstance(t, BitVector):
            w = t.size
            a, b = symex._lift(t._value), symex._lift(f._value)
            if w == 0:
                return t
            return type(t)(SymInt.from_bv(z3.If(sel.t, a.at(w), b.at(w))))
        if isinstance(t, Bit):
            a, b = symex.to_z3_bool(t._value), symex.to_z3_bool(f._value)
            return type(t)(symex.mkbool(z3.If(sel.t, a, b)))
        return None

    def bit_ite(self, t, f):
        if is_sym(self._value):
            r = merge(self._value, t, f)
            if r is not None:
                return r
            return o_ite(type(self)(bool(self._value)), t, f)
        return o_ite(self, t, f)
    Bit.ite = bit_ite

    # ---- BitVector
    o_bv_init = BitVector.__init__

    def bv_init(self, value=0):
        if isinstance(value, BitVector) and is_sym(value._value):
            value = value._value
        elif isinstance(value, Bit) and is_sym(value._value):
            value = _b2i(value._value)
        elif isinstance(value, (list, tuple)) and any(
                is_sym(v) or is_sym(getattr(v, '_value', None)) for v in value):
            acc = 0
            for i, v in enumerate(value):
                if isinstance(v, (Bit, BitVector)):
                    v = v._value
                b = symex.sym_bool(v)
                acc = acc | ((_b2i(b) if is_sym(b) else int(b)) << i)
            value = acc
        if is_sym(value):
            value = _b2i(value)
            self._value = value & ((1 << self.size) - 1)
        else:
            o_bv_init(self, value)
    BitVector.__init__ = bv_init

    o_bv_bool = BitVector.__bool__
    BitVector.__bool__ = lambda self: bool(self._value != 0) if is_sym(self._value) else o_bv_bool(self)
    o_hash = BitVector.__hash__

    def bv_hash(self):
        if is_sym(self._value):
            return hash(f"{type(self)}{self._value.__index__()}")
        return o_hash(self)
    BitVector.__hash__ = bv_hash
    for c in (hbv.NumVector, hbv.UIntVector, hbv.SIntVector):
        c.__hash__ = bv_hash

    def placeholder(orig):
        def f(self):
            return f'{type(self).__name__}(<sym>)' if is_sym(self._value) else orig(self)
        return f
    BitVector.__str__ = placeholder(BitVector.__str__)
    BitVector.__repr__ = placeholder(BitVector.__repr__)
    Bit.__repr__ = placeholder(Bit.__repr__)

    BitVector.__int__ = lambda self: self.as_uint().__index__()
    SIntVector.__int__ = lambda self: self.as_sint().__index__()
    BitVector.__sym_int__ = lambda self: self.as_uint()
    SIntVector.__sym_int__ = lambda self: self.as_sint()

    o_sint = BitVector.as_sint

    def as_sint(self):
        v = self._value
        if is_sym(v):
            w = self.size
            if w == 1:
                return -v
            return SymInt(v.at(w), -(1 << (w - 1)), (1 << (w - 1)) - 1, True)
        return o_sint(self)
    BitVector.as_sint = BitVector.as_int = as_sint

    def arith(name, z):
        o = getattr(BitVector, name)

        @functools.wraps(o)
        def f(self, other):
            if not isinstance(other, BitVector):
                other = type(self)(other)
            if (is_sym(self._value) or is_sym(other._value)) and other.size == self.size and self.size > 0:
                w = self.size
                a, b = symex._lift(self._value).at(w), symex._lift(other._value).at(w)
                return type(self)(SymInt.from_bv(z(a, b, w)))
            return o(self, other)
        setattr(BitVector, name, f)
    # Python's // and % floor; hwtypes' signed division follows Python, not SMT-LIB
    arith('bvshl', lambda a, b, w: a << b)
    arith('bvlshr', lambda a, b, w: z3.LShR(a, b))
    arith('bvashr', lambda a, b, w: a >> b)
    arith('bvadd', lambda a, b, w: a + b)
    arith('bvsub', lambda a, b, w: a - b)
    arith('bvmul', lambda a, b, w: a * b)
    arith('bvudiv', lambda a, b, w: z3.UDiv(a, b))
    arith('bvurem', lambda a, b, w: z3.URem(a, b))

    o_getitem = BitVector.__getitem__

    def getitem(self, index):
        if is_sym(self._value) and isinstance(index, slice):
            start, stop, step = index.indices(self.size)
            if step == 1:
                n = max(0, stop - start)
                return type(self).unsized_t[n](self._value.bits(start, n))
        return o_getitem(self, index)
    BitVector.__getitem__ = getitem

    o_set = BitVector.__setitem__

    def setitem(self, index, value):
        if isinstance(index, slice) or not (is_sym(self._value) or is_sym(value) or
                                            is_sym(getattr(value, '_value', None))):
            return o_set(self, index, value)
        if not isinstance(value, (bool, Bit)) and not (isinstance(value, int) and ((value == 0) | (value == 1))):
            raise ValueError('bad bit')
        index = index.__index__()
        if index < 0:
            index += self.size
        if not 0 <= index < self.size:
            raise IndexError()
        mask = type(self)(1 << index)
        self._value = Bit(value).ite(self | mask, self & ~mask)._value
    BitVector.__setitem__ = setitem
    _smt_values()


def _smt_values():
    """symbolic-family values made from symbolic Python values"""
    from hwtypes import SMTBit, SMTBitVector
    b_init, v_init = SMTBit.__init__, SMTBitVector.__init__

    def sym(value):
        if isinstance(value, (Bit, BitVector)):
            value = value._value
        return value if is_sym(value) else None

    def bit_init(self, value=hwtypes.smt_bit_vector.SMYBOLIC, **k):
        v = sym(value)
        if v is not None:
            if type(v) is SymInt:
                v = symex.sym_bool(v != 0)
            value = symex.engine().mirror(v) if is_sym(v) else bool(v)
        b_init(self, value, **k)

    def bv_init(self, value=hwtypes.smt_bit_vector.SMYBOLIC, **k):
        v = sym(value)
        if v is not None:
            v = _b2i(v)
            value = symex.engine().mirror(SymInt.from_bv(symex._lift(v).at(self.size)))
        v_init(self, value, **k)
    SMTBit.__init__, SMTBitVector.__init__ = bit_init, bv_init


def shim_ints(*modules):
    """let int()/bool() in these modules keep symbolic values symbolic"""
    for m in modules:
        d = vars(m)
        if 'int' not in d:
            d['int'] = symex.IntShim
        if 'bool' not in d:
            d['bool'] = symex.BoolShim


def shim_all_peak():
    import sys
    for name, m in list(sys.modules.items()):
        if m is not None and (name == 'peak' or name.startswith('peak.')):
            shim_ints(m)
