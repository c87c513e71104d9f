"""Arbitrary rewrite rules of an (architecture, operation) pair, written from the Python types alone."""
import itertools

import hwtypes
from hwtypes.adt import Enum

from . import maplib as L
from .symex import EngineError


def name(p):
    return '.'.join(map(str, p))


def routings(dst, src):
    """every type-respecting map of dst leaves to src leaves or None that uses every src leaf at least once"""
    qs = list(dst.items())
    opts = [[None] + [p for p, t in src.items() if t == T] for q, T in qs]
    n = 1
    for o in opts:
        n *= len(o)
    if n > 20000:
        raise ValueError('too many routings')
    return [{q: p for (q, _), p in zip(qs, c)} for c in itertools.product(*opts) if set(src) <= set(c)]


def spread(xs, n):
    """at most n of xs, evenly spread, ends included"""
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


class Rules:
    def __init__(self, arch_fc, ir_fc):
        self.arch, self.ir = arch_fc, ir_fc
        self.forms = L.forms(arch_fc.Py.input_t)
        self.ileaves = L.forms(ir_fc.Py.input_t)[0]
        self.oleaves = L.forms(arch_fc.Py.output_t)[0], L.forms(ir_fc.Py.output_t)[0]
        ty = lambda d: {p: T for p, (T, c) in d.items()}
        self.routes = [(i, r) for i, f in enumerate(self.forms) for r in routings(ty(f), ty(self.ileaves))]
        # one operand at one place first
        self.routes.sort(key=lambda ir: sum(p is not None for p in ir[1].values()))
        self.oroutes = routings(ty(self.oleaves[0]), ty(self.oleaves[1]))
        self.oroutes.sort(key=lambda r: sum(p is not None for p in r.values()))


def symbolic(ctx, nm, T):
    """arbitrary bits of a leaf (an enumeration: any bits, members or not)"""
    if issubclass(T, hwtypes.AbstractBit):
        return ctx.bit(nm)
    return ctx.bv(f'{nm}:{L.leaf_width(T)}', L.leaf_width(T))


def member(ctx, T, v):
    """condition: the bits are a member's"""
    if not issubclass(T, Enum):
        return True
    from peak.assembler import Assembler
    return ctx.any(*[ctx.cond(v == Assembler(T).assemble(m)) for m in T.enumerate()])


def binding(form, route, vals, free):
    """[(ir path | value | Unbound, arch path)]"""
    from peak.mapper.utils import Unbound
    return [(p if p is not None else vals[q] if q in vals else Unbound, q) for q, p in route.items()]


def outputs(oroute, mention_unused=True):
    from peak.mapper.utils import Unbound
    return [(p if p is not None else Unbound, q) for q, p in oroute.items() if mention_unused or p is not None]


def differences(ctx, R, oroute, iv, av):
    """[condition: bound output differs]; iv/av: leaf path -> bits"""
    got = L.call(R.arch, av)
    want = L.call(R.ir, iv)
    return [ctx.not_(L.same_leaf(ctx, got[q], want[p])) for q, p in oroute.items() if p is not None]
