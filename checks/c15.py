import functools

from lib import efsmt, maplib as L
from lib.runner import Scenario

META = dict(
    explanation='The solver the mapper asks is replaced by one that answers with symbolic values, assumed only to satisfy what '
                'the mapper asserted (universally quantified assertions are instantiated until every remaining answer is '
                'genuine); the rule the real code extracts is then executed in the Python family on symbolic operands and '
                'compared with the operation.',
    bounds='40 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures x up to 16 operations at 3-bit words, and the 3 architectures with black boxes of C22; both formula styles, both index encodings; every answer of the '
           'solver, in direct solving and in the last round of the refinement loop',
    level='other')


def arch_mapper(arch, ivar, **kw):
    from lib import mapprogs as P
    from peak.mapper import ArchMapper
    from peak.mapper.index_var import OneHot, Binary
    return ArchMapper(P.ARCH[arch][0], IVar=dict(OneHot=OneHot, Binary=Binary)[ivar], **kw)


@functools.lru_cache(None)
def ir_mapper(arch, op, simple, ivar):
    from lib import mapprogs as P
    return arch_mapper(arch, ivar).process_ir_instruction(P.ir(op), simple_formula=simple)


def run(ctx, im, how='direct'):
    """(solve()'s rule, the answers it was given); None instead of a rule when solve() raised

    direct: one question, every answer; any: the refinement loop, every answer to its first questions (None: not answered within
    these); loop: the refinement loop with the answers z3 gives"""
    from lib.symex import EngineError
    from peak.mapper.mapper import LoopException
    ans = efsmt.LoopAnswers(ctx) if how == 'any' else efsmt.Answers(ctx)
    try:
        if how == 'loop':
            return loop_rule(im), ans
        if how == 'direct':
            with efsmt.solver(ans.make):
                return im.solve('z3'), ans
        for limit in (0, 1):
            try:
                with ans.installed():
                    return im.solve('z3', external_loop=True, itr_limit=limit), ans
            except LoopException:
                if ans.solves:
                    return None, ans
        return None, ans
    except EngineError:
        raise
    except Exception as e:
        ans.check(False, f'solve() raised {type(e).__name__}: {e}')
        return None, ans


@functools.lru_cache(None)
def loop_rule(im):
    return im.solve('z3', external_loop=True, itr_limit=5000)


def pair(arch, op, hows=('direct', 'any', 'loop')):
    def scenario(ctx):
        from lib import mapprogs as P
        simple = ctx.choice('simple', [True, False])
        ivar = ctx.choice('ivar', ['OneHot', 'Binary'])
        how = ctx.choice('how', list(hows))
        rule, ans = run(ctx, ir_mapper(arch, op, simple, ivar), how)
        if rule is None:
            ctx.check(True, '')
        else:
            L.check_rule(ctx, ans, rule, P.ARCH[arch][0], P.ir(op))
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    for a, ops in arch_ops(tier, seed, 40).items():
        for o in ops:
            yield Scenario(f'{a}/{o}', pair(a, o, *([('direct', 'loop')] if tier == 'quick' and a.startswith('rnd') else [])), budget_s=300)
    from lib.mapnames import BB_OPS
    from checks import c22
    for a, ops in BB_OPS.items():
        for o in ops:
            yield Scenario(f'boxes/{a}/{o}', c22.mapping(a, o, complete=False), budget_s=300)
