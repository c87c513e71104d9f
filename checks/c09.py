import functools

import hwtypes
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Tuple, TaggedUnion

from lib import fam, enc
from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='A register of each type, option and family is driven by a history whose operations (call, peek), target '
                'instance, data and enables are symbolic; every returned value must equal the one of a two-line reference.',
    bounds='2 instances, histories of 3 operations (5 thorough; one less for enums and composites in the Python family); bit, vector (1..8 bits), signed, unsigned, enum, product, '
           'tagged union; all initial values of types up to 3 bits, boundary values above; families Py, PyX, SMT; deprecated '
           'gen_register (all) and gen_register2 (Python, Bit/BitVector)',
    level='other')


class Mode(Enum):
    A = 0
    B = 1
    C = 5


class Pt(Product):
    x = BitVector[3]
    m = Mode


class Tg(TaggedUnion):
    p = Pt
    v = BitVector[2]


TYPES = {
    'Bit': Bit, 'bv1': BitVector[1], 'bv3': BitVector[3], 'bv8': BitVector[8], 's4': SIntVector[4], 'u4': UIntVector[4],
    'enum': Mode, 'prod': Pt, 'union': Tg, 'tuple': Tuple[Bit, BitVector[2]],
}


COMPOSITE = (Mode, Pt, Tg)      # in the Python family every variant of the stored value is a path of its own


def inits(ctx, T, few_typed=False):
    """initial values in plain Python (or ADT) form"""
    if T is Bit:
        return [0, 1, True, False]
    if fam.is_adt(T):
        if T is Mode:
            return list(Mode.enumerate())
        if T is Pt:
            return [Pt(BitVector[3](5), Mode.C), Pt(BitVector[3](0), Mode.A)]
        if T is Tg:
            return [Tg(v=BitVector[2](2)), Tg(p=Pt(BitVector[3](1), Mode.B))]
        return [T(Bit(1), BitVector[2](2))]
    n = T.size
    vals = list(range(1 << n)) if n <= 3 else [0, 1, (1 << n) - 1, 1 << (n - 1), 5]
    return vals + ([] if few_typed else [T(v) for v in vals[-2:]])


def famtype(family, T):
    """the type a program of this family would name"""
    if fam.is_adt(T):
        return family.get_adt_t(T)
    if T is Bit:
        return family.Bit
    return fam.leaf_in(T, family.BitVector.get_family())


def const(family, T, init):
    F = famtype(family, T)
    return init if isinstance(init, F) else F(init)


def inp(ctx, family, T, name):
    i = fam.Input(ctx, T, name)
    from peak import family as F
    if isinstance(family, F.SMTFamily):
        return i.smt(family, famtype(family, T))
    if isinstance(family, F.PyXFamily):
        return i.asm_value(family)
    return i.py()


def en_of(ctx, family, name):
    from peak import family as F
    return ctx.smt_bit(name) if isinstance(family, F.SMTFamily) else ctx.bit(name)


def term(ctx, T, v):
    """z3 bits of a register value"""
    return z3_of(fam.bits(v))


def drive(ctx, Reg, family, T, init, steps, has_enable, peek=True, typed=True, two=True):
    import z3
    insts = [Reg(), Reg()] if two else [Reg()]
    t0 = term(ctx, T, const(family, T, init))
    ref = [t0] * len(insts)
    F = famtype(family, T)
    ops = ['call', 'peek'] if peek else ['call']
    for s in range(steps):
        k = ctx.choice(f's{s}.inst', range(len(insts)))
        op = ctx.choice(f's{s}.op', ops)
        if op == 'peek':
            got = insts[k].prev()
        else:
            v = inp(ctx, family, T, f's{s}.v')
            if has_enable:
                en = en_of(ctx, family, f's{s}.en')
                got = insts[k](v, en) if s % 2 else insts[k](value=v, en=en)
            else:
                got = insts[k](v)
        if typed:
            ctx.check(isinstance(got, F), f'{op} {s} returned a {type(got).__name__}')
        g = term(ctx, T, got if typed else F(got))
        ctx.check(ref[k] == g, f'{op} {s} on instance {k} returned the wrong value')
        if op == 'call':
            new = term(ctx, T, v)
            ref[k] = z3.If(z3_of(en), new, ref[k]) if has_enable else new


def families():
    from peak import family as F
    from peak.assembler2 import Assembler as A2
    return {'Py': F.PyFamily(), 'PyX': F.PyXFamily(), 'SMT': F.SMTFamily()}


def one(ctx, fk, tk, has_enable, steps, how='family'):
    T = TYPES[tk]
    family = families()[fk]
    ii = inits(ctx, T, fk == 'SMT')
    if steps > 1:
        ii = [ii[0], ii[-1]]
    init = ctx.choice('init', ii)
    F = famtype(family, T)
    if how == 'default':
        Reg = family.gen_register(F, init)
    elif how == 'deprecated':
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from peak.register import gen_register
            Reg = gen_register(T if fam.is_adt(T) else T, init)(family)
    else:
        Reg = family.gen_register(F, init, has_enable=has_enable)
    names = ['value', 'en'] if has_enable else ['value']
    ctx.check(list(Reg.input_t.field_dict) == names, 'register input names')
    ctx.check(list(Reg.output_t.field_dict.values()) == [F], 'register output type')
    ctx.check(Reg.input_t.field_dict['value'] is F, 'register input type')
    drive(ctx, Reg, family, T, init, steps, has_enable)


def cache(ctx, fk, order, steps):
    """several registers requested in one history: every one keeps its own type, initial value and enable"""
    family = families()[fk]
    reqs = [(TYPES['bv3'], 0, True), (TYPES['bv3'], 5, True), (TYPES['bv3'], 0, False), (TYPES['bv8'], 0, True),
            (TYPES['u4'], 5, True), (TYPES['s4'], 5, True), (TYPES['bv3'], 5, False), (TYPES['Bit'], 0, True), (TYPES['Bit'], 1, True)]
    if fk == 'Py':
        reqs += [(TYPES['enum'], Mode.B, True), (TYPES['enum'], Mode.C, True)]
    picks = [ctx.choice(f'r{i}', range(len(reqs))) for i in range(order)]
    regs = [family.gen_register(famtype(family, reqs[p][0]), reqs[p][1], has_enable=reqs[p][2]) for p in picks]
    for p, R in zip(picks, regs):
        T, init, he = reqs[p]
        r = R()
        ctx.check(list(R.input_t.field_dict) == (['value', 'en'] if he else ['value']), f'request {p}: inputs')
        ctx.check(R.output_t.field_dict[0] is famtype(family, T), f'request {p}: type')
        ctx.check(term(ctx, T, r.prev()) == term(ctx, T, const(family, T, init)), f'request {p}: initial value')
    for i, p in enumerate(picks):
        for j in range(i):
            if picks[j] == p:
                ctx.check(regs[i] is regs[j], 'equal requests yield different classes')


def cross(ctx, order):
    """families do not share registers"""
    fs = families()
    ks = [ctx.choice(f'f{i}', sorted(fs)) for i in range(order)]
    for i, k in enumerate(ks):
        f = fs[k]
        he = ctx.choice(f'he{i}', [True, False])
        R = f.gen_register(f.BitVector[4], 9, has_enable=he)
        r = R()
        v = inp(ctx, f, BitVector[4], f'v{i}')
        args = (v, en_of(ctx, f, f'en{i}')) if he else (v,)
        got = r(*args)
        ctx.check(isinstance(got, f.BitVector[4]), f'{k}: wrong family')
        ctx.check(z3_of(got) == z3_of(f.BitVector[4](9)), f'{k}: initial value')


def gen2(ctx, tk, steps):
    from peak.register import gen_register2
    T = TYPES[tk]
    init = T(ctx.choice('init', [0, 1] if T is Bit else [0, 3, (1 << T.size) - 1]))
    fs = families()
    Reg = gen_register2(hwtypes.BitVector.get_family(), T, init=init)
    drive(ctx, Reg, fs['Py'], T, init, steps, True, peek=False)
    # the default initial value is 0
    r = gen_register2(hwtypes.BitVector.get_family(), T)()
    got = r(inp(ctx, fs['Py'], T, 'w'), Bit(1))
    ctx.check(term(ctx, T, T(got)) == term(ctx, T, T(0)), 'default initial value')


def scenarios(tier, seed):
    more = tier != 'quick'
    steps = 5 if more else 3
    out = []
    for fk in ('Py', 'PyX', 'SMT'):
        for tk in TYPES:
            out.append(Scenario(f'{fk}/{tk}/init', functools.partial(one, fk=fk, tk=tk, has_enable=True, steps=1)))
            for he in (True, False):
                out.append(Scenario(f'{fk}/{tk}/en={he}', functools.partial(one, fk=fk, tk=tk, has_enable=he,
                                                                        steps=steps - 1 if fk == 'Py' and TYPES[tk] in COMPOSITE else steps)))
        for tk in ('bv3', 'Bit', 'bv8'):
            out.append(Scenario(f'{fk}/{tk}/default', functools.partial(one, fk=fk, tk=tk, has_enable=True, steps=2, how='default')))
            out.append(Scenario(f'{fk}/{tk}/deprecated', functools.partial(one, fk=fk, tk=tk, has_enable=True, steps=2, how='deprecated')))
        out.append(Scenario(f'{fk}/requests', functools.partial(cache, fk=fk, order=4 if more else 3, steps=1)))
    out.append(Scenario('families', functools.partial(cross, order=3)))
    for tk in ('Bit', 'bv1', 'bv3', 'bv8', 's4', 'u4'):
        out.append(Scenario(f'gen_register2/{tk}', functools.partial(gen2, tk=tk, steps=steps)))
    return out
