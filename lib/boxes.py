"""Meaning of black boxes: an arbitrary function per box class, consistent on equal arguments."""
import hwtypes
import z3

from . import fam, maplib as L
from .ctx import z3_of


def walk(obj, path=()):
    """{path: box} by attribute names, written from the description alone"""
    from peak import Peak
    from peak.black_box import BlackBox
    if isinstance(obj, BlackBox):
        return {path: obj}
    out = {}
    for k, v in vars(obj).items():
        if isinstance(v, Peak):
            out.update(walk(v, path + (k,)))
    return out


def term(v):
    return z3_of(fam.bits(v))


class Function:
    """HANDLER of bbprogs: one arbitrary function per box name (fresh results, equal on equal arguments)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = {}

    def __call__(self, name, args):
        from .bbprogs import SIG
        ctx = self.ctx
        ts = [term(a) for a in args]
        old = self.calls.setdefault(name, [])
        outs = []
        for j, T in enumerate(SIG[name][1]):
            nm = f'{name}#{len(old)}.{j}'
            outs.append(ctx.bit(nm) if issubclass(T, hwtypes.AbstractBit) else ctx.bv(nm, T.size))
        zs = [term(o) for o in outs]
        for ts1, zs1 in old:
            ctx.assume(z3.Implies(z3.And(*[a == b for a, b in zip(ts, ts1)]), z3.And(*[a == b for a, b in zip(zs, zs1)])))
        old.append((ts, zs))
        return outs[0] if len(outs) == 1 else tuple(outs)


class Box:
    """the boxes of one symbolic-family object: fresh results, recorded arguments"""

    def __init__(self, tag):
        self.tag = tag
        self.outs = []          # z3 variables
        self.calls = []         # (box class, argument terms, result terms)

    def setup(self, obj):
        self.found = []
        for path, b in walk(obj).items():
            n = f'{self.tag}.' + '.'.join(map(str, path))
            out = [L.smt_sym(f'{n}.{k}', T) for k, T in type(b).output_t.field_dict.items()]
            b._set_outputs(*out)
            self.found.append((b, out))

    def done(self):
        for b, out in self.found:
            zs = [z3_of(o) for o in out]
            self.outs += zs
            self.calls.append((type(b), [term(i) for i in b._get_inputs()], zs))


def consistent(*boxes):
    """z3: the calls of all boxes are calls of one function per class"""
    calls = [c for b in boxes for c in b.calls]
    cs = []
    for i, (K, a, x) in enumerate(calls):
        for K1, b, y in calls[:i]:
            if K is K1:
                cs.append(z3.Implies(z3.And(*[p == q for p, q in zip(a, b)]), z3.And(*[p == q for p, q in zip(x, y)])))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def run(fc, in_t, leaves, famod, tag):
    """outputs {path: z3 term} of the symbolic class on symbolic leaves, and its boxes"""
    b = Box(tag)
    out = L.run_smt(fc, in_t, leaves, famod, b.setup)
    b.done()
    return {p: L.z3out(v) for p, v in out.items()}, b
