import json

from lib import maplib as L, rules as RU
from lib.runner import Scenario
from lib.symex import is_sym

META = dict(
    explanation='Rules with symbolic constants are serialized and read back by the real code, directly and through JSON text '
                '(json.dumps/json.loads of the real structure, the symbolic leaves standing as tokens); bindings, types and '
                'constants must be those of the original rule, and the inputs both rules build must be equal.',
    bounds='20 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures x up to 16 operations at 3-bit words, one architecture with constants of 1 to 100 bits, up to 12 routings each (all in the thorough tier), constants '
           'at instruction and data inputs, unused outputs, paths through products, tuples, unions and sums; all constants',
    level='other')


def through_json(x):
    toks = {}

    def out(v):
        if isinstance(v, dict):
            return {k: out(w) for k, w in v.items()}
        if isinstance(v, (tuple, list)):
            return [out(w) for w in v]
        if is_sym(v):
            t = f'<symbolic {len(toks)}>'
            toks[t] = v
            return t
        return v

    def back(v):
        if isinstance(v, dict):
            return {k: back(w) for k, w in v.items()}
        if isinstance(v, list):
            return [back(w) for w in v]
        return toks.get(v, v) if isinstance(v, str) else v
    return back(json.loads(json.dumps(out(x))))


def same_entry(ctx, a, b):
    from peak.mapper.utils import Unbound
    (p, q), (r, s) = a, b
    if q != s or type(q) is not type(s):
        return False
    if p is Unbound or isinstance(p, tuple) or r is Unbound or isinstance(r, tuple):
        return p is r or (type(p) is type(r) and p == r)
    return ctx.same(p, r)


def round_trip(arch, op, limit):
    def scenario(ctx):
        from lib import mapprogs as P
        from peak import family
        from peak.mapper import RewriteRule, read_serialized_bindings
        R = RU.Rules(P.ARCH[arch][0], P.ir(op))
        if not R.routes or not R.oroutes:
            ctx.check(True, '')
            return
        fi, route = ctx.choice('route', RU.spread(R.routes, limit))
        oroute = ctx.choice('out', RU.spread(R.oroutes, 4))
        form = R.forms[fi]
        data = [q for q, p in route.items() if p is None and not form[q][1]]
        free = data if ctx.choice('keep', [True, False]) else []
        vals = {q: RU.symbolic(ctx, 'k.' + RU.name(q), form[q][0]) for q, p in route.items() if p is None and q not in free}
        for q, v in vals.items():
            ctx.assume(RU.member(ctx, form[q][0], v))
        mention = ctx.choice('mention', [True, False]) if None in oroute.values() else True
        rule = RewriteRule(RU.binding(form, route, vals, free), RU.outputs(oroute, mention), R.ir, R.arch)
        before = list(rule.ibinding), list(rule.obinding)
        text = ctx.choice('json', [False, True])
        what = f' ({arch}, {op}, {route}, json={text})'
        s = rule.serialize_bindings()
        if text:
            s = through_json(s)
        for again in (False, True):
            new = read_serialized_bindings(s, R.ir, R.arch)
            for which, old, got in (('inputs', before[0], new.ibinding), ('outputs', before[1], new.obinding),
                                    ('inputs of the original', before[0], rule.ibinding)):
                ctx.check(len(old) == len(got), f'number of bound {which}' + what)
                ctx.check(ctx.all(*[same_entry(ctx, a, b) for a, b in zip(old, got)]), f'bound {which} differ' + what)
            ctx.check(new.ir_fc is R.ir and new.arch_fc is R.arch, 'components')
            s = new.serialize_bindings()
        f = family.PyFamily()
        iv = {p: RU.symbolic(ctx, 'I.' + RU.name(p), T) for p, (T, c) in R.ileaves.items()}
        fv = {q: RU.symbolic(ctx, 'A.' + RU.name(q), form[q][0]) for q in free}
        one, two = rule.build_inputs(dict(iv), dict(fv), f), new.build_inputs(dict(iv), dict(fv), f)
        for a, b in zip(one, two):
            ctx.check(ctx.all(list(a) == list(b), *[ctx.same(L.fam.bits(a[k]), L.fam.bits(b[k])) for k in a]), 'built inputs differ' + what)
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    limit = 12 if tier == 'quick' else 400
    for a, ops in [*arch_ops(tier, seed, 20).items(), ('wide', ['wid', 'wbit', 'wk'])]:
        for o in ops:
            yield Scenario(f'{a}/{o}', round_trip(a, o, limit), budget_s=300)
