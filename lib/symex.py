"""Symbolic execution of real Python code by decision-prefix re-execution.

A scenario is an ordinary Python function over a context `ctx`.  It is executed
with inputs that are SymInt / SymBool values (z3 terms with Python-int / bool
semantics).  Every branch on a symbolic value asks z3 which sides are feasible
and explores all of them (depth first, re-executing the scenario with a recorded
decision prefix); every place where Python insists on a concrete integer
(indexing, hashing, C code) forks over *all* feasible values.  `ctx.check`
asks z3 whether the path condition implies the assertion.  Nothing is sampled:
when exploration finishes within its budgets, every input value has been
covered; when it does not finish the run is inconclusive (BudgetError).
"""
import time
import z3


class EngineError(Exception):
    """the machinery cannot decide (not a property violation)"""


class BudgetError(EngineError):
    pass


class PathEnd(BaseException):
    """this path is infeasible / pruned by an assumption"""


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


_ENGINE = None


def engine():
    if _ENGINE is None:
        raise EngineError('symbolic value used outside of an exploration')
    return _ENGINE


def active():
    return _ENGINE is not None


# ------------------------------------------------------------------ values

def _bits_unsigned(hi):
    return max(1, hi.bit_length())


def _width_for(lo, hi):
    """(signed?, width) able to represent every value in [lo, hi]"""
    if lo >= 0:
        return False, _bits_unsigned(hi)
    n = max((-lo - 1).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0) + 1
    return True, max(1, n)


def _is_plain_int(x):
    return type(x) is int or type(x) is bool or (isinstance(x, int) and not isinstance(x, (SymInt, SymBool)))


MAX_WIDTH = 4096


class SymInt:
    __slots__ = ('t', 'lo', 'hi', 'signed', 'w')

    def __init__(self, term, lo, hi, signed):
        self.w = term.size()
        if self.w > MAX_WIDTH:
            raise BudgetError('symbolic integer wider than %d bits' % MAX_WIDTH)
        self.t = term
        self.lo = lo
        self.hi = hi
        self.signed = signed

    # pretends to be an int for isinstance, it is deliberately *not* a subclass
    # (int(x) on an int subclass would silently read the C digits)
    @property
    def __class__(self):
        return int

    @staticmethod
    def var(name, width):
        return SymInt(z3.BitVec(name, width), 0, (1 << width) - 1, False)

    @staticmethod
    def from_bv(term):
        return SymInt(term, 0, (1 << term.size()) - 1, False)

    def at(self, W):
        """two's complement bits of the value, modulo 2**W"""
        w = self.w
        if W == w:
            return self.t
        if W < w:
            return z3.Extract(W - 1, 0, self.t)
        return z3.SignExt(W - w, self.t) if self.signed else z3.ZeroExt(W - w, self.t)

    @staticmethod
    def make(term_at, lo, hi):
        """term_at: W -> BV term of width W of the value (mod 2**W)"""
        if lo == hi:
            return lo
        signed, W = _width_for(lo, hi)
        return SymInt(term_at(W), lo, hi, signed)

    @staticmethod
    def make_simplified(term_at, lo, hi):
        if lo == hi:
            return lo
        signed, W = _width_for(lo, hi)
        t = z3.simplify(term_at(W))
        if z3.is_bv_value(t):
            return t.as_signed_long() if signed else t.as_long()
        return SymInt(t, lo, hi, signed)

    # ---- arithmetic
    def __add__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return SymInt.make(lambda W: self.at(W) + o.at(W), self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return SymInt.make(lambda W: self.at(W) - o.at(W), self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return o - self

    def __mul__(self, o):
        if _is_plain_int(o):
            if int(o) == 0:
                return 0
            if int(o) == 1:
                return self
        elif not isinstance(o, (SymInt, SymBool)):
            if isinstance(o, (list, tuple, str, bytes)):
                return o * self.__index__()
            return NotImplemented
        o = _lift(o)
        if o is NotImplemented:
            return o
        ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return SymInt.make(lambda W: self.at(W) * o.at(W), min(ps), max(ps))
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        m = max(abs(self.lo), abs(self.hi))
        _, W = _width_for(-m, m)
        t = self.at(W)
        r = z3.If(t < 0, -t, t)
        return SymInt.make(lambda w: _resize(r, w, True), 0, m)

    def __invert__(self):
        return SymInt.make(lambda W: ~self.at(W), -self.hi - 1, -self.lo - 1)

    # ---- bitwise
    def _bw(self, o, f, kind):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if self.lo >= 0 and o.lo >= 0:
            n = max(self.hi.bit_length(), o.hi.bit_length())
            hi = min(self.hi, o.hi) if kind == 'and' else (1 << n) - 1
            return SymInt.make(lambda W: f(self.at(W), o.at(W)), 0, hi)
        if kind == 'and' and (self.lo >= 0 or o.lo >= 0):
            hi = self.hi if self.lo >= 0 else o.hi
            return SymInt.make(lambda W: f(self.at(W), o.at(W)), 0, hi)
        n = max(_width_for(self.lo, self.hi)[1] + (self.lo >= 0), _width_for(o.lo, o.hi)[1] + (o.lo >= 0))
        return SymInt.make(lambda W: f(self.at(W), o.at(W)), -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def __and__(self, o):
        if _is_plain_int(o):
            v = int(o)
            if v == 0:
                return 0
            if v > 0 and (v & (v + 1)) == 0 and self.lo >= 0 and self.hi <= v:
                return self
            if v > 0 and self.lo < 0:
                pass
            if v > 0 and (v & (v + 1)) == 0:
                n = v.bit_length()
                return SymInt.make_simplified(lambda W: _resize(self.at(n), W, False), 0, v)
        return self._bw(o, lambda a, b: a & b, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._bw(o, lambda a, b: a | b, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bw(o, lambda a, b: a ^ b, 'xor')
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, (SymInt, SymBool)) and type(o) in (SymInt, SymBool):
            o = _lift(o)
            if o.lo < 0 and engine().fork((o < 0).t):
                raise ValueError('negative shift count')
            if o.hi > 256:
                o = o.__index__()
            else:
                ps = [self.lo << max(o.lo, 0), self.lo << o.hi, self.hi << max(o.lo, 0), self.hi << o.hi]
                return SymInt.make(lambda W: _shl(self.at(W), o, W), min(ps), max(ps))
        if not _is_plain_int(o):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self

        def shl(W):
            if W <= o:
                return z3.BitVecVal(0, W)
            return z3.Concat(self.at(W - o), z3.BitVecVal(0, o))
        return SymInt.make(shl, self.lo << o, self.hi << o)

    def __rlshift__(self, o):
        return _lift(o) << self

    def __rshift__(self, o):
        if type(o) in (SymInt, SymBool):
            o = _lift(o)
            if o.lo < 0 and engine().fork((o < 0).t):
                raise ValueError('negative shift count')
            W = max(self.w, o.w) + 1
            a = self.at(W)
            n = o.at(W)
            r = z3.If(z3.UGE(n, W), z3.If(a < 0, z3.BitVecVal(-1, W), z3.BitVecVal(0, W)), a >> n)
            ps = [self.lo >> max(o.lo, 0), self.lo >> o.hi, self.hi >> max(o.lo, 0), self.hi >> o.hi]
            return SymInt.make(lambda w: _resize(r, w, True), min(ps), max(ps))
        if not _is_plain_int(o):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        w = self.w
        lo, hi = self.lo >> o, self.hi >> o
        if o >= w:
            if self.lo >= 0:
                return 0
            r = z3.Extract(w - 1, w - 1, self.t)
        else:
            r = z3.Extract(w - 1, o, self.t)
        return SymInt.make_simplified(lambda W: _resize(r, W, self.signed), lo, hi)

    def __rrshift__(self, o):
        return _lift(o) >> self

    def bits(self, start, n):
        """(self >> start) & ((1 << n) - 1), one extraction"""
        if n <= 0:
            return 0
        if self.w >= start + n:
            t = z3.simplify(z3.Extract(start + n - 1, start, self.t))
            if z3.is_bv_value(t):
                return t.as_long()
            return SymInt(t, 0, (1 << n) - 1, False)
        return (self >> start) & ((1 << n) - 1)

    # ---- division (Python floor semantics)
    def _divmod(self, o):
        if o.lo <= 0 <= o.hi and engine().fork((o == 0).t if not _is_plain_int(o == 0) else z3.BoolVal(bool(o == 0))):
            raise ZeroDivisionError('integer division or modulo by zero')
        if self.lo >= 0 and o.lo >= 0:
            W = max(self.w, o.w)
            a, b = self.at(W), o.at(W)
            q, r = z3.UDiv(a, b), z3.URem(a, b)
            return (SymInt.make(lambda w: _resize(q, w, False), 0, self.hi),
                    SymInt.make(lambda w: _resize(r, w, False), 0, max(0, min(self.hi, o.hi - 1))))
        W = max(self.w, o.w) + 2
        a, b = self.at(W), o.at(W)
        q0 = a / b            # truncating signed division
        r0 = z3.SRem(a, b)
        adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
        q = z3.If(adj, q0 - 1, q0)
        r = z3.If(adj, r0 + b, r0)
        m = max(abs(self.lo), abs(self.hi)) + 1
        n = max(abs(o.lo), abs(o.hi))
        return (SymInt.make(lambda w: _resize(q, w, True), -m, m),
                SymInt.make(lambda w: _resize(r, w, True), -n, n))

    def __floordiv__(self, o):
        o = _lift(o)
        return o if o is NotImplemented else self._divmod(o)[0]

    def __rfloordiv__(self, o):
        o = _lift(o)
        return o if o is NotImplemented else o._divmod(self)[0]

    def __mod__(self, o):
        o = _lift(o)
        return o if o is NotImplemented else self._divmod(o)[1]

    def __rmod__(self, o):
        o = _lift(o)
        return o if o is NotImplemented else o._divmod(self)[1]

    def __divmod__(self, o):
        o = _lift(o)
        return o if o is NotImplemented else self._divmod(o)

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o, m=None):
        return pow(o, self.__index__(), m)

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    # ---- comparison
    def _cmp(self, o, f, decided):
        o = _lift(o)
        if o is NotImplemented:
            return o
        d = decided(self, o)
        if d is not None:
            return d
        if self.lo >= 0 and o.lo >= 0:
            W = max(self.w, o.w)
            return SymBool(f(self.at(W), o.at(W), False))
        W = max(self.w + (not self.signed), o.w + (not o.signed))
        return SymBool(f(self.at(W), o.at(W), True))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b, s: a == b,
                         lambda a, b: False if a.hi < b.lo or b.hi < a.lo else None)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b, s: a != b,
                         lambda a, b: True if a.hi < b.lo or b.hi < a.lo else None)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b, s: (a < b) if s else z3.ULT(a, b),
                         lambda a, b: True if a.hi < b.lo else False if a.lo >= b.hi else None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b, s: (a <= b) if s else z3.ULE(a, b),
                         lambda a, b: True if a.hi <= b.lo else False if a.lo > b.hi else None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b, s: (a > b) if s else z3.UGT(a, b),
                         lambda a, b: True if a.lo > b.hi else False if a.hi <= b.lo else None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b, s: (a >= b) if s else z3.UGE(a, b),
                         lambda a, b: True if a.lo >= b.hi else False if a.hi < b.lo else None)

    # ---- concretisation points (complete forking)
    def __index__(self):
        return engine().concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return engine().fork(self.at(self.w) != 0)

    def __float__(self):
        return float(self.__index__())

    def bit_length(self):
        if self.lo >= 0:
            t, w = self.t, self.w
        else:
            a = abs(self)
            if _is_plain_int(a):
                return a.bit_length()
            t, w = a.t, a.t.size()
        n = w.bit_length()
        r = z3.BitVecVal(0, n)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, n), r)
        return SymInt.make(lambda W: _resize(r, W, False), 0, w)

    def bit_count(self):
        return bin(self.__index__()).count('1')

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __repr__(self):
        return '<sym>'
    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            return format(self.__index__(), spec)
        return '<sym>'


def _resize(t, W, signed):
    w = t.size()
    if W == w:
        return t
    if W < w:
        return z3.Extract(W - 1, 0, t)
    return z3.SignExt(W - w, t) if signed else z3.ZeroExt(W - w, t)


def _shl(a, n, W):
    nw = n.t.size()
    if nw > W:
        return z3.If(z3.UGE(n.t, z3.BitVecVal(W, nw)), z3.BitVecVal(0, W), a << n.at(W))
    return a << n.at(W)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def as_symint(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1, False)

    def __bool__(self):
        return engine().fork(self.t)

    def __index__(self):
        return int(engine().fork(self.t))
    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def _b(self, o, f, name):
        if type(o) is SymBool:
            return mkbool(f(self.t, o.t))
        if type(o) is bool:
            return mkbool(f(self.t, z3.BoolVal(o)))
        if type(o) is SymInt or _is_plain_int(o):
            return getattr(self.as_symint(), name)(o)
        return NotImplemented

    def __and__(self, o):
        return self._b(o, lambda a, b: z3.And(a, b), '__and__')
    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, lambda a, b: z3.Or(a, b), '__or__')
    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, lambda a, b: z3.Xor(a, b), '__xor__')
    __rxor__ = __xor__

    def __eq__(self, o):
        return self._b(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._b(o, lambda a, b: a != b, '__ne__')

    def __invert__(self):
        return ~self.as_symint()

    def __repr__(self):
        return '<symbool>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<symbool>'


def _arith(name):
    def f(self, o):
        return getattr(self.as_symint(), name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lshift__', '__rlshift__',
           '__rshift__', '__rrshift__', '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__',
           '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymBool, _n, _arith(_n))
SymBool.__neg__ = lambda self: -self.as_symint()
SymBool.bit_length = lambda self: self.as_symint()


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _lift(o):
    if type(o) is SymInt:
        return o
    if type(o) is SymBool:
        return o.as_symint()
    if _is_plain_int(o):
        o = int(o)
        signed, w = _width_for(o, o)
        return SymInt(z3.BitVecVal(o, w), o, o, signed)
    return NotImplemented


def is_sym(x):
    return type(x) is SymInt or type(x) is SymBool


def to_z3_bool(c):
    if type(c) is SymBool:
        return c.t
    if isinstance(c, z3.BoolRef):
        return c
    if type(c) is SymInt:
        return c.at(c.t.size()) != 0
    return z3.BoolVal(bool(c))


def sym_int(x=0, *a):
    """int() that keeps symbolic values symbolic"""
    if a or is_plain_fast(x):
        return int(x, *a)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.as_symint()
    f = getattr(type(x), '__sym_int__', None)
    if f is not None:
        return f(x)
    return int(x)


def is_plain_fast(x):
    return type(x) in (int, bool, str, float)


def sym_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        r = (x != 0)
        return r
    return bool(x)


class _ShimMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, a):
        return getattr(cls._real, a)

    def __call__(cls, *a, **k):
        if k:
            return cls._real(*a, **k)
        return cls._conv(*a)


class IntShim(metaclass=_ShimMeta):
    _real = int
    _conv = staticmethod(sym_int)


class BoolShim(metaclass=_ShimMeta):
    _real = bool
    _conv = staticmethod(sym_bool)


# ------------------------------------------------------------------ engine

class Stats:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.forks = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.concretizations = 0

    def as_dict(self):
        return dict(paths=self.paths, pruned_paths=self.pruned, forks=self.forks, queries=self.queries,
                    assertions=self.checks, solver_s=round(self.solver_s, 3),
                    concretizations=self.concretizations)

    def add(self, o):
        for k in ('paths', 'pruned', 'forks', 'queries', 'checks', 'solver_s', 'concretizations'):
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Engine:
    def __init__(self, max_paths=20000, deadline=None, query_ms=60000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.inputs = {}
        self.mirrors = set()
        self.grown = False    # assumptions found on one path may rule out prefixes recorded earlier

    # -- solver
    def _sat(self, *extra):
        self.stats.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            raise BudgetError('solver returned unknown: ' + self.solver.reason_unknown())
        return r == z3.sat

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetError('time budget exhausted')

    # -- decisions
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._tick()
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            if k != 'b':
                raise EngineError('non-deterministic re-execution')
            self.pos += 1
            self.solver.add(cond if v else z3.Not(cond))
            return v
        ct = self._sat(cond)
        cf = self._sat(z3.Not(cond)) if ct else True
        if ct and cf:
            self.stats.forks += 1
            self.todo.append(self.prefix + [('b', False)])
            v = True
        else:
            v = ct
        self.prefix = self.prefix + [('b', v)]
        self.pos += 1
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def concretize(self, x):
        if x.lo == x.hi:
            return x.lo
        t = z3.simplify(x.t)
        if z3.is_bv_value(t):
            return t.as_signed_long() if x.signed else t.as_long()
        self._tick()
        self.stats.concretizations += 1
        while True:
            if self.pos < len(self.prefix):
                k, v = self.prefix[self.pos]
                if k not in ('eq', 'ne'):
                    raise EngineError('non-deterministic re-execution')
                self.pos += 1
                c = t == z3.BitVecVal(v, t.size())
                if k == 'eq':
                    self.solver.add(c)
                    return v
                self.solver.add(z3.Not(c))
                continue
            if not self._sat():
                raise PathEnd()
            v = self.solver.model().eval(t, model_completion=True)
            v = v.as_signed_long() if x.signed else v.as_long()
            c = t == z3.BitVecVal(v, t.size())
            if self._sat(z3.Not(c)):
                self.stats.forks += 1
                self.todo.append(self.prefix + [('ne', v)])
            self.prefix = self.prefix + [('eq', v)]
            self.pos += 1
            self.solver.add(c)
            return v

    def mirror(self, x):
        """pysmt term with the value of a symbolic int or bool"""
        import pysmt.shortcuts as smt
        t = z3.simplify(x.t)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
        else:
            n = f'mirror{len(self.mirrors)}'
            self.mirrors.add(n)
            self.solver.add(z3.Const(n, t.sort()) == t)
        return smt.Symbol(n, smt.BOOL if z3.is_bool(t) else smt.BVType(t.size()))

    def assume(self, cond):
        cond = z3.simplify(to_z3_bool(cond))
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self.solver.add(cond)
        if not self._sat():
            raise PathEnd()

    def check(self, cond, msg):
        """path condition implies cond, for every input"""
        self._tick()
        self.stats.checks += 1
        cond = z3.simplify(to_z3_bool(cond))
        if z3.is_true(cond):
            return
        neg = z3.Not(cond)
        if self._sat(neg):
            raise Violation(msg, self.solver.model())

    def model(self):
        if not self._sat():
            raise PathEnd()
        return self.solver.model()

    # -- exploration
    def explore(self, fn):
        """fn(); returns None or (msg, model) for the first violation"""
        global _ENGINE
        assert _ENGINE is None
        self.todo = [[]]
        while self.todo:
            if self.stats.paths + self.stats.pruned > self.max_paths:
                raise BudgetError('path budget exhausted (%d)' % self.max_paths)
            self.prefix = self.todo.pop()
            self.pos = 0
            self.solver.push()
            _ENGINE = self
            try:
                fn()
                if self.grown and not self._sat():
                    raise PathEnd()
                if self.pos < len(self.prefix) or (self.prefix and not self._sat()):
                    raise EngineError('non-deterministic re-execution (path not reproduced)')
                self.stats.paths += 1
            except PathEnd:
                self.stats.pruned += 1
            except Violation as v:
                self.stats.paths += 1
                return v
            finally:
                _ENGINE = None
                self.solver.pop()
        return None
