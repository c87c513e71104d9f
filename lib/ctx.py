"""The context scenarios are written against: symbolic or concrete (replay)."""
import z3
from . import symex
from .symex import SymInt, SymBool, is_sym


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


_conv = None


def pysmt_to_z3(f):
    global _conv
    import pysmt.shortcuts as smt
    from pysmt.solvers.z3 import Z3Converter
    if _conv is None:
        _conv = Z3Converter(smt.get_env(), z3.main_ctx())
    return _conv.convert(f)


def z3_of(v):
    """z3 term of a Bit/BitVector/SMTBit/SMTBitVector/SymX/int-free value"""
    import hwtypes
    if isinstance(v, (hwtypes.SMTBit, hwtypes.SMTBitVector)):
        return pysmt_to_z3(v.value)
    if isinstance(v, hwtypes.BitVector):
        return symex._lift(v._value).at(v.size) if v.size else None
    if isinstance(v, hwtypes.Bit):
        return symex.to_z3_bool(v._value)
    if type(v) in (SymInt,):
        return v.t
    if type(v) is SymBool:
        return v.t
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise TypeError(f'no z3 term for {type(v)}')


class Ctx:
    """concrete mode if `given` is a dict of input values, symbolic otherwise"""

    def __init__(self, given=None, eng=None, known=()):
        self.given = given
        self.eng = eng
        self.known_ids = set(known)
        self.kinds = {}      # name -> ('bv', width) | ('bit',) | ('int', lo, hi)
        self.notes = []
        self.reached = 0

    @property
    def symbolic(self):
        return self.given is None

    # ---------------------------------------------------------------- inputs
    def _decl(self, name, kind):
        old = self.kinds.get(name)
        assert old is None or old == kind, name
        self.kinds[name] = kind

    def raw(self, name, width):
        """Python int in [0, 2**width)"""
        self._decl(name, ('bv', width))
        if width == 0:
            return 0
        if self.symbolic:
            return SymInt.var(name, width)
        return int(self.given.get(name, 0)) & ((1 << width) - 1)

    def rawbool(self, name):
        self._decl(name, ('bit',))
        if self.symbolic:
            return SymBool(z3.Bool(name))
        return bool(self.given.get(name, False))

    def bv(self, name, width, T=None):
        import hwtypes
        T = hwtypes.BitVector if T is None else T
        return T[width](self.raw(name, width))

    def bit(self, name):
        import hwtypes
        return hwtypes.Bit(self.rawbool(name))

    def smt_bv(self, name, width, T=None):
        import hwtypes
        import pysmt.shortcuts as smt
        T = hwtypes.SMTBitVector if T is None else T
        self._decl(name, ('bv', width))
        if self.symbolic:
            return T[width](smt.Symbol(name, smt.BVType(width)))
        return T[width](int(self.given.get(name, 0)) & ((1 << width) - 1))

    def smt_bit(self, name):
        import hwtypes
        import pysmt.shortcuts as smt
        self._decl(name, ('bit',))
        if self.symbolic:
            return hwtypes.SMTBit(smt.Symbol(name, smt.BOOL))
        return hwtypes.SMTBit(bool(self.given.get(name, False)))

    def int(self, name, lo, hi):
        """Python int in [lo, hi]"""
        n = hi - lo
        v = self.raw(name, max(1, n.bit_length()))
        if self.symbolic:
            self.assume(v <= n)
            return v + lo
        return lo + min(int(v), n)

    def choice(self, name, seq):
        """an element of seq; every element is explored"""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        i = self.int(name, 0, len(seq) - 1)
        return seq[i.__index__()]

    def value(self, T, name, limit=2000, fixed=None):
        """an arbitrary value of the (Py) type T: leaves symbolic, variants explored.

        A product with more than `limit` variant combinations explores one field's
        variants at a time (all leaves stay symbolic, the other fields hold their
        first or their last variant)."""
        import hwtypes
        from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
        from . import adts
        if fixed is not None:
            if issubclass(T, Enum):
                return list(T.enumerate())[fixed]
            if issubclass(T, TaggedUnion):
                f = sorted(T.field_dict)[fixed]
                return T(**{f: self.value(T.field_dict[f], f'{name}.{f}', limit, fixed)})
            if issubclass(T, Sum):
                k, F = sorted(T.field_dict.items(), key=repr)[fixed]
                return T(self.value(F, f'{name}.{k}', limit, fixed))
        if issubclass(T, (Product, Tuple)):
            if fixed is None and adts.count(T) > limit:
                focus = self.choice(name + '.focus', [k for k in T.field_dict if adts.count(T.field_dict[k]) > 1])
                rest = self.choice(name + '.rest', [0, -1])
                return T(*[self.value(F, f'{name}.{k}', limit, None if k == focus else rest)
                           for k, F in T.field_dict.items()])
            return T(*[self.value(F, f'{name}.{k}', limit, fixed) for k, F in T.field_dict.items()])
        if issubclass(T, hwtypes.AbstractBit):
            return T(self.rawbool(name))
        if issubclass(T, hwtypes.AbstractBitVector):
            return T(self.raw(name, T.size))
        if issubclass(T, Enum):
            return self.choice(name, list(T.enumerate()))
        if issubclass(T, TaggedUnion):
            f = self.choice(name + '.#', sorted(T.field_dict))
            return T(**{f: self.value(T.field_dict[f], f'{name}.{f}', limit)})
        if issubclass(T, Sum):
            fs = sorted(T.field_dict.items(), key=repr)
            k, F = self.choice(name + '.#', fs)
            return T(self.value(F, f'{name}.{k}', limit))
        raise TypeError(T)

    # ---------------------------------------------------------------- conditions
    def cond(self, c):
        """anything boolean-like -> python bool or z3 Bool"""
        import hwtypes
        if isinstance(c, hwtypes.SMTBit):
            t = z3.simplify(pysmt_to_z3(c.value))
            return True if z3.is_true(t) else False if z3.is_false(t) else t
        if type(c) is SymBool:
            return c.t
        if isinstance(c, z3.BoolRef):
            return c
        if isinstance(c, hwtypes.Bit):
            v = c._value
            return v.t if type(v) is SymBool else bool(v)
        if c is NotImplemented or c is None:
            raise TypeError('not a condition: %r' % (c,))
        if isinstance(c, bool):
            return bool(c)
        raise TypeError('not a condition: %r' % (type(c),))

    def all(self, *cs):
        ts = [self.cond(c) for c in cs]
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if t is not True]
        return True if not ts else z3.And(*ts) if len(ts) > 1 else ts[0]

    def any(self, *cs):
        ts = [self.cond(c) for c in cs]
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return False if not ts else z3.Or(*ts) if len(ts) > 1 else ts[0]

    def not_(self, c):
        t = self.cond(c)
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def implies(self, a, b):
        return self.any(self.not_(a), b)

    def iff(self, a, b):
        a, b = self.cond(a), self.cond(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        return a == b

    def check(self, c, msg):
        c = self.cond(c)
        self.reached += 1
        if self.symbolic:
            if c is True:
                self.eng.stats.checks += 1
                return
            self.eng.check(c if not isinstance(c, bool) else z3.BoolVal(c), msg)
        else:
            if not isinstance(c, bool):
                s = z3.Solver()
                s.add(z3.Not(c))
                c = s.check() == z3.unsat
            if not c:
                raise CheckFailed(msg)

    def assume(self, c):
        c = self.cond(c)
        if self.symbolic:
            if c is True:
                return
            self.eng.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
        else:
            if not isinstance(c, bool):
                c = z3.is_true(z3.simplify(c))
            if not c:
                raise AssumeFailed()

    def fail(self, msg):
        self.check(False, msg)

    def known(self, kid):
        """True if the finding `kid` is recorded in the known-findings file"""
        return kid in self.known_ids

    def same(self, a, b):
        """deep equality of two values as a condition (types must agree)"""
        import hwtypes
        from hwtypes.adt import Enum, Product, Tuple, Sum
        if isinstance(a, (hwtypes.SMTBit, hwtypes.SMTBitVector)) or isinstance(b, (hwtypes.SMTBit, hwtypes.SMTBitVector)):
            za, zb = z3_of(a), z3_of(b)
            if za.sort() != zb.sort():
                return False
            return z3.simplify(za == zb)
        if type(a) is not type(b):
            return False
        return self.same_value(a, b)

    def same_value(self, a, b):
        import hwtypes
        from hwtypes.adt import Enum, Product, Tuple, Sum
        if isinstance(a, hwtypes.Bit):
            return self.iff(a, b)
        if isinstance(a, hwtypes.BitVector):
            if a.size != b.size:
                return False
            r = a._value == b._value
            return r.t if type(r) is SymBool else bool(r)
        if isinstance(a, Enum):
            return a is b or a._value_ == b._value_
        if isinstance(a, (Product, Tuple)):
            return self.all(*[self.same(a.value_dict[k], b.value_dict[k]) for k in type(a).field_dict])
        if isinstance(a, Sum):
            ks = type(a).field_dict
            return self.all(*[
                (a.value_dict[k] is None) == (b.value_dict[k] is None) if a.value_dict[k] is None or b.value_dict[k] is None
                else self.same(a.value_dict[k], b.value_dict[k]) for k in ks])
        if isinstance(a, tuple):
            return len(a) == len(b) and self.all(*[self.same(x, y) for x, y in zip(a, b)])
        if a is None:
            return b is None
        raise TypeError(type(a))

    def model_inputs(self, model):
        out = {}
        for name, kind in self.kinds.items():
            if kind[0] == 'bv':
                if kind[1]:
                    out[name] = model.eval(z3.BitVec(name, kind[1]), model_completion=True).as_long()
            else:
                out[name] = z3.is_true(model.eval(z3.Bool(name), model_completion=True))
        return out
