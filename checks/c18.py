from lib import efsmt, maplib as L, rules as RU
from lib.runner import Scenario

META = dict(
    explanation='verify() is executed on rules whose constants are symbolic, with a solver whose verdict and whose counterexample '
                'are symbolic too (any model of what verify() asserted, or none when there is none); on "verified" the rule must '
                'be correct for every operand, otherwise the returned values must make the two components differ. Construction '
                'must refuse exactly the rules with a constant that is no member of its type or without a constant.',
    bounds='12 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures x up to 16 operations at 3-bit words, up to 10 routings each (60 thorough) including operands routed '
           'to several places, fixed data inputs, unused outputs; rules over black boxes: those of C22, 4 routings each; every value of every constant, operand and solver answer',
    level='other')


def verify(arch, op, limit):
    def scenario(ctx):
        from lib import mapprogs as P
        from peak.mapper import RewriteRule
        R = RU.Rules(P.ARCH[arch][0], P.ir(op))
        if not R.routes or not R.oroutes:
            ctx.check(True, '')
            return
        fi, route = ctx.choice('route', RU.spread(R.routes, limit))
        oroute = ctx.choice('out', RU.spread(R.oroutes, 4))
        form = R.forms[fi]
        fixdata = ctx.choice('fixdata', [False, True])
        free = [q for q, p in route.items() if p is None and not form[q][1] and not fixdata]
        fixed = [q for q, p in route.items() if p is None and q not in free]
        if fixdata and not any(not form[q][1] for q in fixed):
            ctx.check(True, '')
            return
        vals = {q: RU.symbolic(ctx, 'k.' + RU.name(q), form[q][0]) for q in fixed}
        valid = ctx.all(*[RU.member(ctx, form[q][0], v) for q, v in vals.items()])
        mention = ctx.choice('mention', [True, False]) if None in oroute.values() else True
        what = f' ({arch}, {op}, {route}, {oroute})'
        try:
            rule = RewriteRule(RU.binding(form, route, vals, free), RU.outputs(oroute, mention), R.ir, R.arch)
        except ValueError:
            ctx.check(ctx.not_(valid), 'a rule with valid constants is refused' + what)
            return
        ctx.check(valid, 'a constant that is no value of its type is accepted' + what)
        ans = efsmt.Answers(ctx)
        with efsmt.solver(ans.make):
            ce = rule.verify()
        if ce is None:
            iv = {p: L.operand(ctx, 'I.' + RU.name(p), T) for p, (T, c) in R.ileaves.items()}
            av = {q: iv[p] if p is not None else vals[q] if q in vals else L.operand(ctx, 'A.' + RU.name(q), form[q][0])
                  for q, p in route.items()}
            for d in RU.differences(ctx, R, oroute, iv, av):
                ans.check(ctx.not_(d), 'a wrong rule is verified' + what)
        else:
            ice, ace = ce
            ans.check(set(ice) == set(R.ileaves) and set(ace) == set(free), f'counterexample names {set(ice)}, {set(ace)}' + what)
            for p, v in list(ice.items()) + list(ace.items()):
                T = (R.ileaves if p in ice and ice[p] is v else form)[p][0]
                ans.check(RU.member(ctx, T, v), f'counterexample value of {p} is no value of its type' + what)
            av = {q: ice[p] if p is not None else vals[q] if q in vals else ace[q] for q, p in route.items()}
            ans.check(ctx.any(*RU.differences(ctx, R, oroute, ice, av)), 'the counterexample is none: all outputs agree' + what)
    return scenario


def unset(arch, op):
    def scenario(ctx):
        from lib import mapprogs as P
        from peak.mapper import RewriteRule
        R = RU.Rules(P.ARCH[arch][0], P.ir(op))
        fi, route = ctx.choice('route', RU.spread(R.routes, 6))
        form = R.forms[fi]
        consts = [q for q, p in route.items() if p is None and form[q][1]]
        if not consts:
            ctx.check(True, '')
            return
        hole = ctx.choice('hole', consts)
        vals = {}
        for q in consts:
            if q != hole:
                v = RU.symbolic(ctx, 'k.' + RU.name(q), form[q][0])
                ctx.assume(RU.member(ctx, form[q][0], v))
                vals[q] = v
        try:
            RewriteRule(RU.binding(form, route, vals, ()), RU.outputs(R.oroutes[0]), R.ir, R.arch)
        except ValueError:
            ctx.check(True, '')
        else:
            ctx.fail(f'a rule without a value for the instruction input {hole} of {arch} is accepted')
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    limit = 10 if tier == 'quick' else 60
    for a, ops in arch_ops(tier, seed, 12).items():
        yield Scenario(f'{a}/unset', unset(a, ops[0]))
        for o in ops:
            yield Scenario(f'{a}/{o}', verify(a, o, limit), budget_s=300)
    from lib.mapnames import BB_OPS
    from checks import c22
    for a, ops in BB_OPS.items():
        for o in ops:
            yield Scenario(f'boxes/{a}/{o}', c22.verify(a, o, 4 if tier == 'quick' else 20), budget_s=300)
