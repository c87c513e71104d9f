import itertools

from lib import efsmt
from lib.runner import Scenario

META = dict(
    explanation='The real loop is executed with solvers whose answers are symbolic: every question may be answered with "no" (a '
                'lemma) or with any values that fit, and the formula itself is an arbitrary truth table (one symbolic bit per '
                'assignment). When the loop returns a solution, z3 must refute that it violates the formula for some value of '
                'the universal variables; when it returns "unsatisfiable", z3 must refute that some choice satisfies the '
                'formula for all of them; the limit error may only come after the limit, and never when every choice could '
                'have been tried.',
    bounds='every formula over up to 2 existential and 2 universal bits (3+1 and 1+3 too in the thorough tier), Boolean and '
           'bit-vector variables; limits 0..5 and none; no, 0, 1 initial random vectors with every content; every answer sequence',
    level='other')


def variables(sorts, pre):
    import pysmt.shortcuts as smt
    return [smt.Symbol(f'{pre}{i}.{s}', smt.BOOL if s == 'b' else smt.BVType(s)) for i, s in enumerate(sorts)]


def bits(v, s):
    import pysmt.shortcuts as smt
    return [v] if s == 'b' else [smt.Equals(smt.BVExtract(v, i, i), smt.BV(1, 1)) for i in range(s)]


def width(sorts):
    return sum(1 if s == 'b' else s for s in sorts)


def table(ctx, bs):
    """arbitrary Boolean function of the bits"""
    import pysmt.shortcuts as smt
    rows = []
    for k in range(1 << len(bs)):
        lits = [b if k >> i & 1 else smt.Not(b) for i, b in enumerate(bs)]
        rows.append(smt.And(*lits, ctx.smt_bit(f't{k}').value))
    return smt.Or(*rows)


def loop(xsorts, ysorts, inits):
    def scenario(ctx):
        import random
        import pysmt.shortcuts as smt
        import z3
        from lib.ctx import pysmt_to_z3
        from lib.symex import Violation
        from peak.mapper.mapper import external_loop_solve, LoopException
        xs, ys = variables(xsorts, 'x'), variables(ysorts, 'y')
        phi = table(ctx, [b for v, s in zip(xs + ys, xsorts + ysorts) for b in bits(v, s)])
        limit = ctx.choice('limit', [0, 1, 2, 3, 4, 5, None])
        init = ctx.choice('init', inits)
        ans = efsmt.LoopAnswers(ctx)
        count = itertools.count()
        old = {k: getattr(random, k) for k in ('randrange', 'getrandbits', 'randint')}
        pick = lambda n: ctx.choice(f'rand{next(count)}', range(n))
        random.randrange = lambda n, m=None: pick(n) if m is None else n + pick(m - n)
        random.randint = lambda a, b: a + pick(b - a + 1)
        random.getrandbits = lambda k: pick(1 << k)
        ext = {}

        def rule(solver, info):
            assert info == 'info'
            ext.update({v: solver.get_value(v) for v in xs})
            return ext
        what = f' (limit {limit}, {init} initial vectors)'
        try:
            with ans.installed():
                got = external_loop_solve(ys, phi, maxloops=limit, solver_name='z3', irmapper='info', num_initial_vectors=init,
                                          rr_from_solver=rule)
        except LoopException:
            ans.check(limit is not None and limit <= ans.solves <= limit + 1, f'the limit error comes after {ans.solves} iterations' + what)
            ans.check(limit is None or limit < 1 << width(xsorts), 'the limit error although the limit lets every choice be tried' + what)
            return
        finally:
            for k, v in old.items():
                setattr(random, k, v)
        ans.check(limit is None or ans.solves <= limit + 1, 'more iterations than the limit' + what)
        if got is not None:
            ans.check(got is ext, 'the solution is not the one extracted')
            yv = {v: ctx.smt_bit(f'U{i}').value if s == 'b' else ctx.smt_bv(f'U{i}', s).value for i, (v, s) in enumerate(zip(ys, ysorts))}
            holds = pysmt_to_z3(phi.substitute({**ext, **yv}))
            ans.check(holds, 'the solution returned does not satisfy the formula for all values' + what)
            return
        xv = {v: ctx.smt_bit(f'E{i}').value if s == 'b' else ctx.smt_bv(f'E{i}', s).value for i, (v, s) in enumerate(zip(xs, xsorts))}
        always = efsmt.Forall([pysmt_to_z3(y) for y in ys], pysmt_to_z3(phi.substitute(xv)))
        ans.validate()
        facts = list(ctx.eng.solver.assertions()) if ctx.symbolic else []
        m = efsmt.solve(facts, ans.lemmas + [always])
        msg = 'no solution is reported but there is one' + what
        if not ctx.symbolic:
            ctx.check(m is None, msg)
            return
        ctx.eng.stats.checks += 1
        ctx.reached += 1
        if m is not None:
            raise Violation(msg, m)
    return scenario


def scenarios(tier, seed):
    S = [[], ['b'], [1], [2], ['b', 'b'], [1, 'b'], [1, 1]]
    if tier != 'quick':
        S += [[3], ['b', 2]]
    for xs in S:
        for ys in S:
            if width(xs) + width(ys) <= 4:
                inits = [-1, 0, 1] if width(ys) <= (1 if tier == 'quick' else 2) else [-1, 0]
                if tier != 'quick' and width(ys) <= 1:
                    inits += [2]
                yield Scenario(f'{xs}/{ys}', loop(xs, ys, inits), budget_s=300)
