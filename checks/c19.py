from lib import maplib as L, rules as RU, fam
from lib.runner import Scenario

META = dict(
    explanation='build_inputs() is executed on rules with symbolic constants and symbolic operands; every bit of the result is '
                'compared with the bit of the leaf that the binding and the published layout put there (and with the tag of the '
                'alternative the rule uses). Calls with a missing, extra or misplaced input must be refused.',
    bounds='20 random architectures (10 times as many in the thorough tier) x 4 operations at 2-bit words, and '
           '13 architectures x up to 16 operations at 3-bit words, up to 16 routings each (all in the thorough tier) including '
           'operands routed to several places, fixed data inputs; Python, rewritten-Python and SMT families; all values',
    level='other')


def leaf_types(R, fi):
    return {('I', p): T for p, (T, c) in R.ileaves.items()}, {('A', q): T for q, (T, c) in R.forms[fi].items()}


def place(ctx, nm, T, smt):
    """arbitrary bits of a leaf in the family of the request"""
    import hwtypes
    if issubclass(T, hwtypes.AbstractBit):
        return ctx.smt_bit(nm) if smt else ctx.bit(nm)
    w = L.leaf_width(T)
    return ctx.smt_bv(f'{nm}:{w}', w) if smt else ctx.bv(f'{nm}:{w}', w)


def setup(ctx, arch, op, limit):
    from lib import mapprogs as P
    from peak.mapper import RewriteRule
    R = RU.Rules(P.ARCH[arch][0], P.ir(op))
    if not R.routes or not R.oroutes:
        return None
    fi, route = ctx.choice('route', RU.spread(R.routes, limit))
    form = R.forms[fi]
    data = [q for q, p in route.items() if p is None and not form[q][1]]
    keep = ctx.choice('keep', ['all', 'none', 'some'] if len(data) > 1 else ['all', 'none'] if data else ['all'])
    free = data if keep == 'all' else [] if keep == 'none' else data[:1]
    vals = {q: RU.symbolic(ctx, 'k.' + RU.name(q), form[q][0]) for q, p in route.items() if p is None and q not in free}
    for q, v in vals.items():
        ctx.assume(RU.member(ctx, form[q][0], v))
    order = ctx.choice('order', [1, -1])       # the order in which a rule lists its bindings has no meaning
    rule = RewriteRule(RU.binding(form, route, vals, free)[::order], RU.outputs(R.oroutes[0]), R.ir, R.arch)
    return R, form, route, free, vals, rule


def same_bits(ctx, got, want, msg):
    """want: list of Bits, None = unused"""
    import hwtypes
    got = fam.bits(got)
    bs = [got[i] for i in range(got.size)] if isinstance(got, hwtypes.AbstractBitVector) else [got]
    if len(bs) != len(want):
        ctx.fail(msg + ': width')
        return
    ctx.check(ctx.all(*[ctx.iff(a, b) for a, b in zip(bs, want) if b is not None]), msg)


def route(arch, op, limit):
    def scenario(ctx):
        import hwtypes
        from hwtypes.modifiers import strip_modifiers
        from peak import family
        s = setup(ctx, arch, op, limit)
        if s is None:
            ctx.check(True, '')
            return
        R, form, route, free, vals, rule = s
        f = ctx.choice('family', [family.PyFamily(), family.PyXFamily(), family.SMTFamily()])
        smt = f == family.SMTFamily()
        iv = {p: place(ctx, 'I.' + RU.name(p), T, smt) for p, (T, c) in R.ileaves.items()}
        fv = {q: place(ctx, 'A.' + RU.name(q), form[q][0], smt) for q in free}
        ins = dict(reversed(iv.items())) if ctx.choice('inputs', [0, 1]) else dict(iv)
        ir_in, arch_in = rule.build_inputs(ins, dict(fv), f)
        bvt = f.BitVector
        av = {q: iv[p] if p is not None else vals[q] if q in vals else fv[q] for q, p in route.items()}
        for what, fc, got, leaves in (('operation', R.ir, ir_in, iv), ('architecture', R.arch, arch_in, av)):
            T = strip_modifiers(fc.Py.input_t)
            ctx.check(list(got) == list(T.field_dict), f'inputs of the {what}: {list(got)}')
            for k, F in T.field_dict.items():
                v = got[k]
                ctx.check(isinstance(fam.bits(v), (f.BitVector, f.Bit)), f'{k} is a {type(v)}')
                sub = {p: x for p, x in leaves.items() if p[0] == k}
                same_bits(ctx, v, L.bit_list(F, (k,), sub, bvt), f'input {k} of the {what} ({arch}, {op}, {route})')
    return scenario


def refuse(arch, op):
    def scenario(ctx):
        from peak import family
        s = setup(ctx, arch, op, 5)
        if s is None:
            ctx.check(True, '')
            return
        R, form, route, free, vals, rule = s
        smt = ctx.choice('smt', [False, True])
        f = family.SMTFamily() if smt else family.PyFamily()
        iv = {p: place(ctx, 'I.' + RU.name(p), T, smt) for p, (T, c) in R.ileaves.items()}
        fv = {q: place(ctx, 'A.' + RU.name(q), form[q][0], smt) for q in free}
        bad = [(d, 'drop', p) for d, keys in ((0, iv), (1, fv)) for p in keys]
        bad += [(d, 'add', ('nowhere',)) for d in (0, 1)] + [(d, 'rename', p) for d, keys in ((0, iv), (1, fv)) for p in keys]
        bad += [(1, 'add', q) for q in form if q not in free]
        d, how, p = ctx.choice('bad', bad)
        D = (iv, fv)[d]
        if how == 'add':
            D[p] = place(ctx, 'X', form[p][0] if p in form else next(iter(form.values()))[0], smt)
        else:
            v = D.pop(p)
            if how == 'rename':
                D[p + (0,)] = v
        ok = rule.get_input_paths()
        ctx.check(ok[0] == set(R.ileaves) and ok[1] == set(free), f'get_input_paths(): {ok}')
        try:
            rule.build_inputs(iv, fv, f)
        except ValueError:
            ctx.check(True, '')
        else:
            ctx.fail(f'accepted: {how} {p} ({arch}, {op}, {route})')
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import arch_ops
    limit = 16 if tier == 'quick' else 400
    for a, ops in [*arch_ops(tier, seed, 20).items(), ('wide', ['wid', 'wbit', 'wk'])]:
        yield Scenario(f'{a}/refuse', refuse(a, ops[0]))
        for o in ops:
            yield Scenario(f'{a}/{o}', route(a, o, limit), budget_s=300)
