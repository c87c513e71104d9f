import functools

from lib import efsmt, maplib as L
from lib.runner import Scenario
from checks.c15 import ir_mapper

META = dict(
    explanation='An independent search over all routings and constants - written from the Python types alone, each candidate an '
                'exists-forall query over the SMT terms the real components compute - decides whether a rule exists; the real '
                'mapper, with exact answers to its own formula, must agree, in both formula styles, both index encodings and '
                'with both solving strategies.',
    bounds='40 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures x up to 16 operations at 3-bit words, and the 3 architectures with black boxes of C22 (rules exist for about half of the pairs)',
    level='other')


@functools.lru_cache(None)
def exists(arch, op):
    from lib import mapprogs as P
    from peak import family
    sp = L.Spec(P.ARCH[arch][0], P.ir(op), family)
    return any(sp.exists(c) is not None for c in sp.cands)


def pair(arch, op):
    def scenario(ctx):
        want = exists(arch, op)
        simple = ctx.choice('simple', [True, False])
        ivar = ctx.choice('ivar', ['OneHot', 'Binary'])
        loop = ctx.choice('loop', [False, True])
        im = ir_mapper(arch, op, simple, ivar)
        if loop:
            rule = im.solve('z3', external_loop=True, itr_limit=5000)
        else:
            with efsmt.solver(efsmt.exact_stub):
                rule = im.solve('z3')
        ctx.check((rule is not None) == want, ('a rule exists but none is found' if want else 'a rule is returned but none exists')
                  + f' ({arch}, {op}, simple_formula={simple}, {ivar}, external_loop={loop})')
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    for a, ops in arch_ops(tier, seed, 40).items():
        for o in ops:
            yield Scenario(f'{a}/{o}', pair(a, o), budget_s=300)
    from lib.mapnames import BB_OPS
    from checks import c22
    for a, ops in BB_OPS.items():
        for o in ops:
            yield Scenario(f'boxes/{a}/{o}', c22.mapping(a, o, correct=False), budget_s=300)
