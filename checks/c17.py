import functools

from lib import efsmt, maplib as L
from lib.runner import Scenario
from checks import c15
from checks.c15 import arch_mapper

META = dict(
    explanation='As C15 and C16 with restrictions on architecture inputs: the rule extracted from arbitrary solver answers must '
                'keep instruction inputs within their restriction and be correct on restricted data inputs; an independent '
                'exists-forall search decides whether a rule exists under the restrictions.',
    bounds='24 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures, up to 7 restriction sets each (constant and data inputs, one or several values, inside unions and '
           'sums) x all their operations at 3-bit words; both formula styles, index encodings and solving strategies',
    level='other')


@functools.lru_cache(None)
def exists(arch, op, ci):
    from lib import mapprogs as P
    from peak import family
    fc = P.ARCH[arch][0]
    sp = L.Spec(fc, P.ir(op), family, L.constraint_bits(fc, P.CONSTRAINTS[arch][ci]))
    return any(sp.exists(c) is not None for c in sp.cands)


@functools.lru_cache(None)
def ir_mapper(arch, op, ci, simple, ivar):
    from lib import mapprogs as P
    am = arch_mapper(arch, ivar, path_constraints=dict(P.CONSTRAINTS[arch][ci]))
    return am.process_ir_instruction(P.ir(op), simple_formula=simple)


def pair(arch, op, hows=('direct', 'any', 'loop')):
    def scenario(ctx):
        from lib import mapprogs as P
        ci = ctx.choice('constraints', range(len(P.CONSTRAINTS[arch])))
        simple = ctx.choice('simple', [True, False])
        ivar = ctx.choice('ivar', ['OneHot', 'Binary'])
        how = ctx.choice('how', list(hows))
        want = exists(arch, op, ci)
        fc = P.ARCH[arch][0]
        rule, ans = c15.run(ctx, ir_mapper(arch, op, ci, simple, ivar), how)
        what = f' ({arch}, {op}, {P.CONSTRAINTS[arch][ci]}, simple_formula={simple}, {ivar}, {how})'
        if rule is None:
            ctx.check(how == 'any' or not want, 'a rule exists but none is found' + what)
            return
        ans.check(want, 'a rule is returned but none exists' + what)
        L.check_rule(ctx, ans, rule, fc, P.ir(op), L.constraint_bits(fc, P.CONSTRAINTS[arch][ci]))
    return scenario


def unknown(arch):
    def scenario(ctx):
        from lib import mapprogs as P
        fc = P.ARCH[arch][0]
        leaves = sorted({p for f in L.forms(fc.Py.input_t) for p in f}, key=str)
        bad = [('nowhere',), ()] + [p + (0,) for p in leaves] + [p[:-1] + ('nowhere',) for p in leaves]
        bad += [p[:-1] for p in leaves if len(p) > 1]
        p = ctx.choice('path', sorted(set(bad), key=str))
        v = ctx.choice('value', [0, 1, (0, 1)])
        try:
            arch_mapper(arch, 'OneHot', path_constraints={p: v})
        except ValueError:
            ctx.check(True, '')
        else:
            ctx.fail(f'{p} is accepted as a constrained input of {arch}')
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    for a, ops in arch_ops(tier, seed, 24).items():
        yield Scenario(f'{a}/unknown', unknown(a))
        for o in ops:
            yield Scenario(f'{a}/{o}', pair(a, o, *([('direct', 'loop')] if tier == 'quick' and a.startswith('rnd') else [])), budget_s=300)
