"""Uninterpreted floating point numbers: a stand-in for hwtypes.FPVector whose operations are arbitrary functions.

Rounding operations have one function per (format, mode); operations whose result IEEE 754 makes
independent of the mode have one per format. Known identities (commutativity, a > b == b < a) hold."""
import hwtypes
import z3
from hwtypes import Bit, BitVector
from hwtypes.fp_vector_abc import AbstractFPVector

from .ctx import z3_of

EXACT = {'abs', 'neg', 'min', 'max', 'leq', 'lt', 'eq', 'rem', 'is_normal', 'is_subnormal', 'is_zero', 'is_infinite', 'is_NaN',
         'is_negative', 'is_positive', 'from', 'as'}
SWAP = {'gt': 'lt', 'geq': 'leq'}
COMMUTE = {'add', 'mul', 'eq'}          # fma commutes in its first two arguments
NAMES = [n[3:] for n in AbstractFPVector.__dict__ if n.startswith('fp_')]
BITS = {'leq', 'lt', 'geq', 'gt', 'eq'} | {n for n in NAMES if n.startswith('is_')}
ARITY = {n: 1 for n in NAMES}
ARITY.update({n: 2 for n in ('add', 'sub', 'mul', 'div', 'rem', 'min', 'max', 'leq', 'lt', 'geq', 'gt', 'eq')}, fma=3)


class Table:
    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = {}
        self.made = []          # (format, mode, operation) actually applied

    def __call__(self, fmt, mode, op, args, out):
        """args: BitVectors; out: 'bit' or a width"""
        ctx = self.ctx
        self.made.append((fmt, mode, op))
        if op in SWAP:
            op, args = SWAP[op], args[::-1]
        key = (fmt, None if op in EXACT else mode, op)
        name = '/'.join(map(str, (*fmt, getattr(key[1], 'name', '-'), op)))
        old = self.calls.setdefault(key, [])
        nm = f'{name}#{len(old)}'
        r = ctx.bit(nm) if out == 'bit' else ctx.bv(nm, out)
        ts, z = [z3_of(a) for a in args], z3_of(r)
        for ts1, z1 in old:
            same = z3.And(*[a == b for a, b in zip(ts, ts1)])
            if op in COMMUTE or op == 'fma':
                same = z3.Or(same, z3.And(ts[0] == ts1[1], ts[1] == ts1[0], *[a == b for a, b in zip(ts[2:], ts1[2:])]))
            ctx.assume(z3.Implies(same, z == z1))
        old.append((ts, z))
        return r


def stub(table):
    class FP(AbstractFPVector):
        def __init__(self, value):
            if isinstance(value, FP):
                value = value.code
            if not isinstance(value, BitVector):
                raise TypeError(f'floating point constant {value!r}')
            self.code = value

        @classmethod
        def reinterpret_from_bv(cls, value):
            if not isinstance(value, BitVector) or value.size != cls.size:
                raise TypeError(f'not {cls.size} bits')
            return cls(table(fmt(cls), cls.mode, 'from', [value], cls.size))

        def reinterpret_as_bv(self):
            return table(fmt(type(self)), type(self).mode, 'as', [self.code], type(self).size)

        def _op(self, op, *args):
            cls = type(self)
            for a in args:
                if not isinstance(a, FP) or type(a).binding != cls.binding:
                    raise TypeError('Inconsistent FP type')
            r = table(fmt(cls), cls.mode, op, [self.code] + [a.code for a in args], 'bit' if op in BITS else cls.size)
            return r if op in BITS else cls(r)

        def to_ubv(self, size):
            raise TypeError('conversion')

        to_sbv = to_ubv

        __hash__ = None
        def __neg__(self): return self.fp_neg()
        def __abs__(self): return self.fp_abs()
        def __add__(self, o): return self.fp_add(o)
        def __sub__(self, o): return self.fp_sub(o)
        def __mul__(self, o): return self.fp_mul(o)
        def __truediv__(self, o): return self.fp_div(o)
        def __mod__(self, o): return self.fp_rem(o)
        def __eq__(self, o): return self.fp_eq(o)
        def __ne__(self, o): return ~self.fp_eq(o)
        def __ge__(self, o): return self.fp_geq(o)
        def __gt__(self, o): return self.fp_gt(o)
        def __le__(self, o): return self.fp_leq(o)
        def __lt__(self, o): return self.fp_lt(o)

    def fmt(cls):
        return cls.exponent_size, cls.mantissa_size, cls.ieee_compliance

    for n in NAMES:
        def op(self, *args, _n=n):
            if len(args) != ARITY[_n] - 1:
                raise TypeError(f'fp_{_n} takes {ARITY[_n] - 1} arguments')
            return self._op(_n, *args)
        op.__name__ = 'fp_' + n
        setattr(FP, 'fp_' + n, op)
    FP.__abstractmethods__ = frozenset()
    return FP


def install(table):
    """put the stand-in where the real vectors are"""
    import hwtypes.fp_vector
    real = hwtypes.fp_vector.FPVector
    FP = stub(table)
    hwtypes.FPVector = hwtypes.fp_vector.FPVector = FP
    import peak.float as pf
    for k, v in list(vars(pf).items()):
        if v is real:
            setattr(pf, k, FP)
    return FP
