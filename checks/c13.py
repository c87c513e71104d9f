import functools

import hwtypes
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from lib import fam
from lib.runner import Scenario

META = dict(
    explanation='Components with symbolically chosen signatures and results are defined and called; interface types, refusals and '
                'results are compared with the signature. Result values are symbolic.',
    bounds='signatures of up to 3 parameters over 9 types, up to 3 results over 8 types (right, wrong, missing, surplus), named '
           'and anonymous outputs; families Py, PyX, SMT over the program corpus',
    level='other')


class Mode(Enum):
    A = 0
    B = 1


class Mode2(Enum):
    A = 0
    B = 1


class Pt(Product):
    x = BitVector[4]
    m = Mode


class Pt2(Product):
    x = BitVector[4]
    m = Mode


class U(TaggedUnion):
    p = Pt
    v = BitVector[4]


def in_types():
    from peak import Const
    return [Bit, BitVector[4], BitVector[5], SIntVector[4], Mode, Pt, Const(BitVector[4]), Const(Pt), Tuple[Bit, Mode], U]


OUT = [Bit, BitVector[4], BitVector[5], UIntVector[4], Mode, Mode2, Pt, Pt2]


def define(params, rets, body, ns, named=None, flags='', base='Peak', extra=''):
    """params: [(name, annotation expression or None)]"""
    sig = ''.join(f', {n}' + (f': {t}' if t else '') for n, t in params)
    deco = f'@name_outputs({", ".join(f"{k}={v}" for k, v in named)})\n    ' if named is not None else ''
    src = f'class C({base}{flags}):\n    {deco}def __call__(self{sig}{extra}){" -> " + rets if rets else ""}:\n        {body}\n'
    import peak
    env = dict(Peak=peak.Peak, name_outputs=peak.name_outputs, **ns)
    exec(src, env)
    return env['C']


def inputs(ctx, n):
    """input_t lists the parameters in order with their types"""
    ts = in_types()
    names = ['b', 'a', 'result'][:n]
    ann = [ctx.choice(f't{i}', range(len(ts))) if i < 2 else 1 for i in range(n)]
    missing = ctx.choice('missing', [None] + list(range(n)))
    kind = ctx.choice('kind', ['plain', 'typecheck', 'locals', 'default', 'kwonly', 'swapped'])
    params = [(nm, None if i == missing else f'T{ann[i]}') for i, nm in enumerate(names)]
    ns = {f'T{i}': t for i, t in enumerate(ts)}
    ns['Bit'] = Bit
    body = 'return Bit(0)'
    extra = ''
    if kind == 'locals':
        body = 'local = 1; other = local; return Bit(0)'
    elif kind == 'default' and n:
        params[-1] = (params[-1][0], params[-1][1] and params[-1][1] + ' = None')
        if params[-1][1] is None:
            params[-1] = (params[-1][0] + '=None', None)
    elif kind == 'kwonly':
        extra = ', *, late: Bit'
    try:
        C = define(params, 'Bit', body, ns, flags=', typecheck=True' if kind == 'typecheck' else '', extra=extra)
    except ValueError:
        ctx.check(missing is not None or kind == 'kwonly', f'refused the complete signature {params}')
        return
    ctx.check(missing is None and kind != 'kwonly', f'accepted the signature {params} with a missing annotation')
    if kind == 'swapped' and n > 1:
        # the order of the parameters counts, not the one of the annotations
        f = C.__call__
        import peak

        def call(self, first, second) -> Bit:
            return Bit(0)
        call.__annotations__ = {'return': Bit, 'second': ts[ann[1]], 'first': ts[ann[0]]}
        call.__name__ = '__call__'
        D = type(peak.Peak)('D', (peak.Peak,), {'__call__': call})
        ctx.check(list(D.input_t.field_dict) == ['first', 'second'], 'order of inputs')
        ctx.check(D.input_t.field_dict['first'] is ts[ann[0]] and D.input_t.field_dict['second'] is ts[ann[1]], 'types of inputs')
    if n == 0:
        ctx.check(C.input_t is None, 'input type of a component without inputs')
    else:
        ctx.check(issubclass(C.input_t, Product), 'input type is no product')
        ctx.check(list(C.input_t.field_dict) == names, f'input names {list(C.input_t.field_dict)}')
        for i, nm in enumerate(names):
            ctx.check(C.input_t.field_dict[nm] is ts[ann[i]], f'type of {nm}')
            ctx.check(getattr(C.input_t, nm) is ts[ann[i]], f'attribute {nm}')
    ctx.check(list(C.output_t.field_dict.values()) == [Bit], 'output type')


def candidates(ctx, T, name):
    """(value, is it a T)"""
    def mk(t, nm):
        if t is Mode or t is Mode2:
            return t.B
        if fam.is_adt(t):
            return t(*[mk(f, f'{nm}.{k}') for k, f in t.field_dict.items()])
        return t(ctx.rawbool(nm)) if t is Bit else t(ctx.raw(nm, t.size))
    i = ctx.choice(name, range(len(OUT) + 3))
    if i < len(OUT):
        t = OUT[i]
        return mk(t, f'{name}.{i}'), isinstance(t, type) and issubclass(t, T)
    return [0, None, True][i - len(OUT)], False


def outputs(ctx, n, named, check):
    ts = [OUT[ctx.choice(f'o{i}', range(len(OUT)))] if i == 0 else OUT[(3, 4)[i - 1]] for i in range(n)]
    ns = {f'O{i}': t for i, t in enumerate(ts)}
    ns['Bit'] = Bit
    ns['give'] = lambda: result
    names = ['first', 'b', 'a'][:n]
    flags = ', typecheck=True' if check else ''
    if named == 'named':
        C = define([('x', 'Bit')], None, 'return give()', ns, named=[(k, f'O{i}') for i, k in enumerate(names)], flags=flags)
    elif named == 'both':
        C = define([('x', 'Bit')], 'Bit', 'return give()', ns, named=[(k, f'O{i}') for i, k in enumerate(names)], flags=flags)
    else:
        rets = 'O0' + (',' if named == 'tuple' else '') if n == 1 else '(' + ', '.join(f'O{i}' for i in range(n)) + ')'
        C = define([('x', 'Bit')], f'({rets})', 'return give()', ns, flags=flags)
        names = list(range(n))
    o = C.output_t
    ctx.check(list(o.field_dict) == names, f'output names {list(o.field_dict)}')
    ctx.check(all(o.field_dict[k] is t for k, t in zip(names, ts)), 'output types')
    ctx.check(list(C.input_t.field_dict) == ['x'] and C.input_t.field_dict['x'] is Bit, 'inputs of a component with declared outputs')
    # results: right/wrong per position, and the number of them
    cnt = ctx.choice('count', [n, n + 1, n - 1] if n > 1 else [n, n + 1])
    vals, ok = [], []
    for i in range(n):
        if i == ctx.choice('pos', range(n)):
            v, good = candidates(ctx, ts[i], f'v{i}')
        else:
            v, good = fixed(ctx, ts[i], f'f{i}'), True
        vals.append(v)
        ok.append(good)
    if cnt == n + 1:
        vals.append(Bit(1))
    vals = vals[:cnt]
    good = all(ok) and cnt == n
    if n == 1 and cnt == 1:
        result = vals[0] if ctx.choice('wrap', [0, 1]) == 0 else (vals[0],)
    elif cnt == 1:
        result = vals[0] if ctx.choice('wrap', [0, 1]) == 0 else (vals[0],)
    else:
        result = tuple(vals)
    try:
        got = C()(Bit(0))
    except (TypeError, IndexError) as e:
        ctx.check(check and not good, f'refused correct results: {e}')
        return
    ctx.check(good or not check, f'accepted wrong results {[type(v).__name__ for v in vals]}')
    ctx.check(got is result or (isinstance(got, tuple) and isinstance(result, tuple) and len(got) == len(result) and
                                all(a is b for a, b in zip(got, result))), 'result was changed')


def fixed(ctx, T, name):
    if T is Mode or T is Mode2:
        return T.A
    if fam.is_adt(T):
        return T(*[fixed(ctx, f, f'{name}.{k}') for k, f in T.field_dict.items()])
    return T(ctx.rawbool(name)) if T is Bit else T(ctx.raw(name, T.size))


def special(ctx):
    """no result annotation, no results, inherited calls, switched off generation"""
    import peak
    ns = dict(Bit=Bit, D=BitVector[4], None_=None)
    try:
        define([('x', 'Bit')], None, 'return x', ns)
        ctx.fail('a missing result annotation was accepted')
    except ValueError:
        pass
    try:
        define([('x', None)], None, 'return x', ns, named=[('y', 'Bit')])
        ctx.fail('a missing annotation was accepted')
    except ValueError:
        pass
    C = define([('x', 'Bit')], 'None', 'pass', ns)
    ctx.check(C.output_t is None, 'no outputs')
    C = define([('x', 'Bit')], 'None', 'pass', ns, flags=', typecheck=True')
    ctx.check(C.output_t is None, 'no outputs')
    ctx.check(C()(Bit(0)) is None, 'no results')
    C = define([('x', 'Bit')], 'None', 'return x', ns, flags=', typecheck=True')
    try:
        C()(ctx.bit('x'))
        ctx.fail('a result of a component without outputs was accepted')
    except TypeError:
        pass
    C = define([('x', 'Bit'), ('y', 'D')], '(D, Bit)', 'return y, x', ns)
    ns2 = dict(ns, C=C)
    D = type(peak.Peak)('D', (C,), {'extra': lambda self: 1})
    ctx.check(D.input_t is C.input_t and D.output_t is C.output_t, 'inherited interface')
    a, b = ctx.bit('a'), ctx.bv('b', 4)
    r = D()(a, b)
    ctx.check(r[0] is b and r[1] is a, 'inherited call')
    E = define([('z', 'D')], 'Bit', 'return Bit(1)', ns2, base='C')
    ctx.check(list(E.input_t.field_dict.items()) == [('z', BitVector[4])] and list(E.output_t.field_dict.values()) == [Bit], 'overridden call')
    ctx.check(list(C.input_t.field_dict) == ['x', 'y'], 'base class unchanged')
    F = define([('x', None), ('y', None)], None, 'return x', ns, flags=', gen_input_t=False, gen_output_t=False')
    ctx.check(not hasattr(F.__call__, '_input_t'), 'generation of the input type was switched off')
    ctx.check(F()(a, b) is a, 'call without interface types')


def closure(ctx, name):
    """every family exposes the declared types"""
    from lib import programs
    from peak import family as F
    fc, _ = programs.CORPUS[name]
    raw = fc.Py
    for k, f in (('Py', F.PyFamily()), ('PyX', F.PyXFamily()), ('SMT', F.SMTFamily())):
        C = fc(f)
        for side in ('input_t', 'output_t'):
            a, b = getattr(C, side), getattr(raw, side)
            ctx.check(list(a.field_dict) == list(b.field_dict), f'{k}: names of {side}')
            for n in a.field_dict:
                x, y = a.field_dict[n], b.field_dict[n]
                from hwtypes.modifiers import is_modified, strip_modifiers
                ctx.check(is_modified(x) == is_modified(y), f'{k}: modifiers of {n}')
                x, y = strip_modifiers(x), strip_modifiers(y)
                if fam.is_adt(y):
                    ctx.check(x is y, f'{k}: type of {n}')
                else:
                    ctx.check(x is fam.leaf_in(y, f.BitVector.get_family()), f'{k}: type of {n} is {x}')
            ctx.check(issubclass(a, Product) == issubclass(b, Product), f'{k}: kind of {side}')
        ctx.check(C.__name__ == raw.__name__, 'class name')


def scenarios(tier, seed):
    from lib.programs_list import CORPUS_STEPS
    out = []
    for n in (0, 1, 2, 3):
        out.append(Scenario(f'inputs/{n}', functools.partial(inputs, n=n)))
    for n in (1, 2, 3):
        for named in ('named', 'both', 'anon') + (('tuple',) if n == 1 else ()):
            for check in (True, False):
                out.append(Scenario(f'outputs/{n}/{named}/check={check}', functools.partial(outputs, n=n, named=named, check=check)))
    out.append(Scenario('special', special))
    for k in CORPUS_STEPS:
        out.append(Scenario(f'families/{k}', functools.partial(closure, name=k)))
    return out
