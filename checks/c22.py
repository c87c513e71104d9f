import functools
import itertools

from lib import boxes, efsmt, maplib as L, rules as RU
from lib.runner import Scenario

META = dict(
    explanation='(1) Black boxes of several signatures are driven by histories of symbolic operations (set results, call by '
                'position or by name in any order, wrong calls, read the recorded arguments) on symbolic values against a '
                'two-variable reference. (2) Boxes of a hierarchy are looked up before and after sub-components are replaced. '
                '(3) Rules over boxes: the real mapper and the real verify() are asked about architectures with boxes; an '
                'independent exists-forall search, in which the results of the boxes are universally quantified and only '
                'related on equal arguments, decides whether a rule exists and whether a rule is correct; returned rules are '
                'executed in the Python family with boxes that compute an arbitrary (symbolic) function.',
    bounds='histories of 3 operations (4 thorough) on 2 boxes; hierarchies of depth 3, 2 replacements, 13 attribute names; 3 architectures with up to '
           '3 boxes (chained, nested in a sub-component, with two instruction forms) x up to 9 operations at 3-bit words, up to 8 '
           'routings each for verify() (40 thorough)',
    level='other')


# ---------------------------------------------------------------- protocol
def box_class(family, sig):
    from lib import bbprogs as B
    return getattr(B, sig + '_fc')(family)


def sym(ctx, nm, T, T0):
    """a value of an argument or a result in the symbolic family"""
    import hwtypes
    from lib import fam
    if fam.is_adt(T):
        i = fam.Input(ctx, T, nm)
        from peak import family as F
        return i.smt(F.SMTFamily(), T0)
    if issubclass(T, hwtypes.AbstractBit):
        return ctx.smt_bit(nm)
    return ctx.smt_bv(nm, T.size)


def equal(ctx, a, b):
    return isinstance(a, tuple) and len(a) == len(b) and ctx.all(*[type(x) is type(y) and boxes.term(x) == boxes.term(y) for x, y in zip(a, b)])


def protocol(sig, steps):
    def scenario(ctx):
        from lib import bbprogs as B
        from peak import family as F
        C = box_class(F.SMTFamily(), sig)
        ins, outs = B.SIG[sig]
        names = list(C.input_t.field_dict)
        insts = [C(), C()]
        ref = [dict(i=None, o=None) for _ in insts]
        ops = ['set', 'setbad', 'pos', 'kw', 'few', 'many', 'badkw', 'none', 'get'] + (['kwrev', 'mixed', 'kwfew'] if len(ins) > 1 else [])
        for s in range(steps):
            k = ctx.choice(f's{s}.box', [0, 1])
            b, r = insts[k], ref[k]
            op = ctx.choice(f's{s}.op', ops)
            what = f'{op} (step {s}, box {sig})'
            iv = [sym(ctx, f's{s}.i{j}', T, C.input_t.field_dict[n]) for j, (T, n) in enumerate(zip(ins, names))]
            kw = dict(zip(names, iv))
            if op == 'set':
                ov = [sym(ctx, f's{s}.o{j}', T, T) for j, T in enumerate(outs)]
                b._set_outputs(*ov)
                r['o'] = tuple(ov)
                continue
            if op == 'get':
                good = r['i'] is not None
                f = b._get_inputs
            else:
                good = r['o'] is not None and op in ('pos', 'kw', 'kwrev')
                f = {'setbad': lambda: b._set_outputs(*[sym(ctx, f's{s}.o{j}', T, T) for j, T in enumerate(outs + outs[:1])]),
                     'pos': lambda: b(*iv), 'kw': lambda: b(**kw), 'kwrev': lambda: b(**dict(reversed(kw.items()))),
                     'few': lambda: b(*iv[:-1]), 'many': lambda: b(*iv, iv[-1]), 'none': lambda: b(),
                     'badkw': lambda: b(**{**kw, 'other': iv[0]}), 'kwfew': lambda: b(**{names[0]: iv[0]}),
                     'mixed': lambda: b(iv[0], **{names[1]: iv[1]})}[op]
            try:
                got = f()
            except Exception as e:
                if op == 'mixed' and not isinstance(e, AssertionError):
                    continue
                ctx.check(not good and isinstance(e, (ValueError, TypeError)), f'{what} raised {type(e).__name__}: {e}')
                continue
            if op == 'mixed':       # an ordinary call in Python; peak refuses it
                good = r['o'] is not None
            ctx.check(good, what + ' was accepted')
            if op == 'get':
                ctx.check(equal(ctx, got, r['i']), 'the recorded arguments are not those of the last call: ' + what)
            else:
                ctx.check(equal(ctx, got if len(outs) > 1 else (got,), r['o']), 'the results are not the ones set: ' + what)
                r['i'] = tuple(iv)
        for k, (b, r) in enumerate(zip(insts, ref)):
            if r['i'] is not None:
                ctx.check(equal(ctx, b._get_inputs(), r['i']), f'box {k} does not report its last arguments at the end')
    return scenario


# ---------------------------------------------------------------- hierarchies
def hierarchy(famname, steps):
    def scenario(ctx):
        from lib import bbprogs as B
        from peak import family as F
        from peak.black_box import get_black_boxes, get_black_box
        f = getattr(F, famname)()
        make = {'fpu': lambda: B.fpu_unit(f)(), 'g': lambda: B.G_fc(f)(), 'h': lambda: B.H_fc(f)(), 'f1': lambda: B.F_fc(f)(),
                'plain': lambda: B.ir('add')(f)()}
        root = ctx.choice('root', ['nested', 'chain', 'box', 'plain'])
        obj = {'nested': lambda: B.ARCH['nested'](f)(), 'chain': lambda: B.ARCH['chain'](f)(), 'box': lambda: B.F_fc(f)(),
               'plain': lambda: B.ir('add')(f)()}[root]()
        moves = ['all', 'one', 'bad', 'spoil'] + {'nested': ['fpu', 'fpu.g', 'fpu=box', 'new', 'del'], 'chain': ['f1', 'new', 'swap'],
                                                  'box': [], 'plain': ['new']}[root]
        for s in range(steps):
            m = ctx.choice(f's{s}', moves)
            if m == 'all' or m == 'spoil':
                got = get_black_boxes(obj)
                want = boxes.walk(obj)
                ctx.check(set(got) == set(want) and all(got[p] is want[p] for p in want), f'boxes found: {sorted(got)}, present: {sorted(want)}')
                if m == 'spoil':
                    got.clear()
            elif m == 'one':
                for p, b in boxes.walk(obj).items():
                    ctx.check(get_black_box(obj, p) is b, f'the box found at {p} is not the one there')
            elif m == 'bad':
                for p in [('nowhere',), ('fpu', 'nowhere'), ('f1', 'nowhere')]:
                    try:
                        get_black_box(obj, p)
                    except ValueError:
                        ctx.check(True, '')
                    else:
                        ctx.fail(f'a box is found at {p}')
            elif m == 'fpu':
                obj.fpu = make['fpu']()
            elif m == 'fpu.g':
                if hasattr(getattr(obj, 'fpu', None), 'g'):
                    obj.fpu.g = make['g']()
            elif m == 'fpu=box':
                obj.fpu = make['h']()
            elif m == 'f1':
                obj.f1 = make['f1']()
            elif m == 'swap':
                obj.f1, obj.f2 = obj.f2, obj.f1
            elif m == 'new':
                obj.extra = make['f1']()
            elif m == 'del':
                if 'fpu' in vars(obj):
                    del obj.fpu
        got, want = get_black_boxes(obj), boxes.walk(obj)
        ctx.check(set(got) == set(want) and all(got[p] is want[p] for p in want), f'boxes found at the end: {sorted(got)}, present: {sorted(want)}')
        for p, b in want.items():
            ctx.check(get_black_box(obj, p) is b, f'the box found at {p} at the end is not the one there')
    return scenario


NAMES = ['a', '_a', '__a', 'a_', '__a__', '_', 'box', 'fpu', '_input_vals', 'X1', '0', 'a.b', 'path']


def tree(famname):
    """boxes under arbitrary attribute names, at several depths, next to other attributes, shared"""
    def scenario(ctx):
        from lib import bbprogs as B
        from peak import family as F, Peak
        from peak.black_box import get_black_boxes, get_black_box
        f = getattr(F, famname)()
        box = B.F_fc(f)

        class Node(Peak):
            def __call__(self, x: f.Bit) -> f.Bit:
                return x
        n1, n2, n3 = ctx.choice('n1', NAMES), ctx.choice('n2', NAMES[:5]), ctx.choice('n3', NAMES[:4])
        kind = ctx.choice('kind', ['box', 'node', 'deep', 'number', 'list', 'class', 'shared', 'none', 'samebox'])
        root, mid = Node(), Node()
        want = {}
        if ctx.choice('first', [True, False]):
            setattr(root, n1, mid)
            setattr(mid, n2, box())
        else:
            setattr(mid, n2, box())
            setattr(root, n1, mid)
        want[n1, n2] = getattr(mid, n2)
        if n3 != n1:
            if kind == 'box':
                setattr(root, n3, box())
                want[n3,] = getattr(root, n3)
            elif kind in ('node', 'deep'):
                top = node = Node()
                path = (n3,)
                for n in [n1, n2, n3] if kind == 'deep' else []:
                    setattr(node, n, Node())
                    node = getattr(node, n)
                    path += (n,)
                setattr(node, n1, box())
                setattr(node, n2, 3 if n2 != n1 else getattr(node, n1))
                setattr(root, n3, top)
                want[path + (n1,)] = getattr(node, n1)
            elif kind == 'shared':
                setattr(root, n3, mid)
                want[n3, n2] = want[n1, n2]
            elif kind == 'samebox':
                setattr(root, n3, want[n1, n2])
                want[n3,] = want[n1, n2]
            else:
                setattr(root, n3, dict(number=3, list=[box()], none=None)[kind] if kind != 'class' else box)
        for _ in range(2):
            got = get_black_boxes(root)
            ctx.check(set(got) == set(want) and all(got[p] is want[p] for p in want), f'boxes found: {sorted(got)}, present: {sorted(want)}')
            for p, b in want.items():
                ctx.check(get_black_box(root, p) is b, f'the box found at {p} is not the one there')
        got = get_black_boxes(mid)
        ctx.check(list(got) == [(n2,)], f'boxes of the inner component: {sorted(got)}')
        if kind in ('number', 'list', 'class') and n3 != n1:
            try:
                get_black_box(root, (n3,))
                ctx.fail(f'a box is found at {n3}')
            except ValueError:
                pass
    return scenario


# ---------------------------------------------------------------- rules
@functools.lru_cache(None)
def exists(arch, op):
    from lib import bbprogs as B
    from peak import family
    sp = L.Spec(B.ARCH[arch], B.ir(op), family, boxes=boxes)
    return any(sp.exists(c) is not None for c in sp.cands)


@functools.lru_cache(None)
def ir_mapper(arch, op, ivar):
    from lib import bbprogs as B
    from peak.mapper import ArchMapper
    from peak.mapper.index_var import OneHot, Binary
    am = ArchMapper(B.ARCH[arch], IVar=dict(OneHot=OneHot, Binary=Binary)[ivar])
    return am.process_ir_instruction(B.ir(op), simple_formula=True)


def mapping(arch, op, correct=True, complete=True):
    """what the mapper answers for a component with boxes; C15 and C16 use one half each"""
    def scenario(ctx):
        from lib import bbprogs as B
        from checks import c15
        B.HANDLER = boxes.Function(ctx)
        ivar = ctx.choice('ivar', ['OneHot', 'Binary'])
        how = ctx.choice('how', ['direct', 'any', 'loop'])
        want = exists(arch, op)
        rule, ans = c15.run(ctx, ir_mapper(arch, op, ivar), how)
        what = f' ({arch}, {op}, {ivar}, {how})'
        if rule is None:
            ctx.check(not complete or how == 'any' or not want, 'a rule exists but none is found' + what)
            return
        if not correct:
            ctx.check(True, '')
            return
        ans.check(want, 'a rule is returned but none exists' + what)
        L.check_rule(ctx, ans, rule, B.ARCH[arch], B.ir(op))
    return scenario


def refused(arch):
    def scenario(ctx):
        from lib import bbprogs as B
        from peak.mapper import ArchMapper
        op = ctx.choice('op', ['add', 'f'])
        am = ArchMapper(B.ARCH[arch])
        try:
            am.process_ir_instruction(B.ir(op), simple_formula=False)
        except ValueError:
            ctx.check(True, '')
        else:
            ctx.fail('the substitution formula is accepted for black boxes')
    return scenario


@functools.lru_cache(None)
def terms(arch, op):
    """z3 meaning of both components over leaf variables"""
    from lib import bbprogs as B
    from peak import family
    R = RU.Rules(B.ARCH[arch], B.ir(op))
    one = lambda fc, leaves, tag: boxes.run(fc, fc.Py.input_t, {p: L.smt_sym(f'{tag}.{RU.name(p)}', T) for p, (T, c) in leaves.items()},
                                            family, tag) + ({p: L.z3_leaf(f'{tag}.{RU.name(p)}', T) for p, (T, c) in leaves.items()},)
    return R, one(B.ir(op), R.ileaves, 'I'), [one(B.ARCH[arch], f, f'A{i}') for i, f in enumerate(R.forms)]


def verify(arch, op, limit):
    def scenario(ctx):
        import z3
        from lib import bbprogs as B
        from lib.symex import Violation
        from peak.mapper import RewriteRule
        B.HANDLER = boxes.Function(ctx)
        R, (iout, ibox, ivars), aterms = terms(arch, op)
        if not R.routes or not R.oroutes:
            ctx.check(True, '')
            return
        fi, route = ctx.choice('route', RU.spread(R.routes, limit))
        oroute = ctx.choice('out', RU.spread(R.oroutes, 3))
        form = R.forms[fi]
        free = [q for q, p in route.items() if p is None and not form[q][1]]
        vals = {q: RU.symbolic(ctx, 'k.' + RU.name(q), form[q][0]) for q, p in route.items() if p is None and q not in free}
        for q, v in vals.items():
            ctx.assume(RU.member(ctx, form[q][0], v))
        what = f' ({arch}, {op}, {route}, {oroute})'
        rule = RewriteRule(RU.binding(form, route, vals, free), RU.outputs(oroute), R.ir, R.arch)
        ans = efsmt.Answers(ctx)
        with efsmt.solver(ans.make):
            ce = rule.verify()
        if ce is None:
            iv = {p: L.operand(ctx, 'I.' + RU.name(p), T) for p, (T, c) in R.ileaves.items()}
            av = {q: iv[p] if p is not None else vals[q] if q in vals else L.operand(ctx, 'A.' + RU.name(q), form[q][0])
                  for q, p in route.items()}
            for d in RU.differences(ctx, R, oroute, iv, av):
                ans.check(ctx.not_(d), 'a wrong rule is verified' + what)
            return
        ice, ace = ce
        ans.check(set(ice) == set(R.ileaves) and set(ace) == set(free), f'counterexample names {set(ice)}, {set(ace)}' + what)
        aout, abox, avars = aterms[fi]
        av = {q: ice[p] if p is not None else vals[q] if q in vals else ace[q] for q, p in route.items()}
        differ = z3.And(boxes.consistent(ibox, abox), z3.Or(*[aout[q] != iout[p] for q, p in oroute.items() if p is not None]))
        differ = z3.substitute(differ, *[(ivars[p], boxes.term(ice[p])) for p in ivars], *[(avars[q], boxes.term(av[q])) for q in avars])
        never = efsmt.Forall(ibox.outs + abox.outs, z3.Not(differ))
        ans.validate()
        facts = list(ctx.eng.solver.assertions()) if ctx.symbolic else []
        m = efsmt.solve(facts, ans.foralls + ans.lemmas + [never])
        if ctx.symbolic:
            ctx.eng.stats.checks += 1
            ctx.reached += 1
            if m is not None:
                raise Violation('the counterexample is none: all outputs agree for every function of the boxes' + what, m)
        else:
            ctx.check(m is None, 'the counterexample is none: all outputs agree for every function of the boxes' + what)
    return scenario


def scenarios(tier, seed):
    from lib.mapnames import BB_OPS
    quick = tier == 'quick'
    for sig in 'FGHPE':
        yield Scenario(f'protocol/{sig}', protocol(sig, 3 if quick else 4), budget_s=300)
    for f in ('PyFamily', 'PyXFamily', 'SMTFamily'):
        yield Scenario(f'hierarchy/{f}', hierarchy(f, 3 if quick else 4), budget_s=300)
    for f in ('PyFamily', 'PyXFamily', 'SMTFamily'):
        yield Scenario(f'tree/{f}', tree(f), budget_s=300)
    for a, ops in BB_OPS.items():
        yield Scenario(f'{a}/simple only', refused(a))
        for o in ops:
            yield Scenario(f'map/{a}/{o}', mapping(a, o), budget_s=300)
            yield Scenario(f'verify/{a}/{o}', verify(a, o, 8 if quick else 40), budget_s=300)
