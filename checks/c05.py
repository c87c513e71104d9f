import functools
import hwtypes
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from lib import enc, adts
from lib.runner import Scenario

META = dict(
    explanation='Two symbolic values of each type are assembled and compared with ==, != in every supported operand '
                'combination (assembled, plain value, bits, either order); the result must be a family bit that is true '
                'exactly when the values are equal, and equal assembled values must hash alike.',
    bounds='composite and enum types of C01 with at most 24 variant combinations (each pair of variants is explored), '
           'larger ones with the second value ranging over raw opcodes; all leaf values',
    level='other')


def pairs(ctx, ver, T):
    A = enc.Asm(ver)(T)
    AT = enc.AADT(ver)[T, enc.Asm(ver), BitVector]
    a, b = ctx.value(T, 'a'), ctx.value(T, 'b')
    x, y = AT(a), AT(b)
    want = ctx.same(a, b)
    ob = A.assemble(b)
    for what, l, r in (('assembled', x, y), ('value', x, b), ('value, swapped', b, x), ('bits', x, ob)):
        if what == 'value, swapped' and not isinstance(l, (Enum, Product, Tuple, Sum)):
            continue
        eq = l == r
        ctx.check(isinstance(eq, Bit), f'comparison with {what} gives a {type(eq)}')
        ctx.check(ctx.iff(eq, want), f'== with {what} is not equality of the values')
        ne = (l != r) if what != 'value, swapped' else None
        if ne is not None:
            ctx.check(isinstance(ne, Bit), f'!= with {what} gives a {type(ne)}')
            ctx.check(ctx.iff(ne, ctx.not_(want)), f'!= with {what} is not inequality of the values')


def opcodes(ctx, ver, T):
    """equality is bit equality for arbitrary opcodes, in both families"""
    A = enc.Asm(ver)(T)
    w = A.width
    AT = enc.AADT(ver)[T, enc.Asm(ver), BitVector]
    p, q = BitVector[w](ctx.raw('p', w)), BitVector[w](ctx.raw('q', w))
    want = ctx.same_value(p, q)
    ctx.check(ctx.iff(AT(p) == AT(q), want), 'equality of opcodes')
    ctx.check(ctx.iff(AT(p) != AT(q), ctx.not_(want)), 'inequality of opcodes')
    ctx.check(ctx.iff(AT(p) == q, want), 'equality with bits')
    if w and not enc.has_zero(T):
        ST = enc.AADT(ver)[T, enc.Asm(ver), SMTBitVector]
        sp, sq = ctx.smt_bv('p', w), ctx.smt_bv('q', w)
        eq = ST(sp) == ST(sq)
        ctx.check(isinstance(eq, SMTBit), f'SMT comparison gives a {type(eq)}')
        ctx.check(ctx.iff(eq, want), 'SMT equality')
        ctx.check(ctx.iff(ST(sp) != ST(sq), ctx.not_(want)), 'SMT inequality')
        v = ctx.value(T, 'v', limit=60)
        ctx.check(ctx.iff(AT(p) == v, ctx.same_value(p, A.assemble(v))), 'equality with a value')


def hashes(ctx, ver, T):
    A = enc.Asm(ver)(T)
    AT = enc.AADT(ver)[T, enc.Asm(ver), BitVector]
    a = ctx.value(T, 'a')
    x, y = AT(a), AT(A.assemble(a))
    ctx.check(hash(x) == hash(y), 'equal assembled values hash differently')
    ctx.check(hash(x) == hash(AT(x)), 'a copy hashes differently')


def types(ctx, ver, T, others):
    """assembled types are equal exactly when they assemble the same type the same way, in the same family"""
    here = (T, ver, BitVector)
    mk = lambda t, v, bv: enc.AADT(ver)[t, enc.Asm(v), bv]
    AT = mk(*here)
    ctx.check(ctx.cond(AT == T), 'an assembled type differs from its type')
    ctx.check(ctx.cond(AT == mk(*here)), 'an assembled type differs from itself')
    ctx.check(ctx.not_(ctx.cond(bool(AT != mk(*here)))), 'an assembled type is unequal to itself')
    ctx.check(hash(AT) == hash(mk(*here)), 'hash of an assembled type')
    ctx.check(ctx.not_(AT == 3), 'an assembled type equals a number')
    known = {AT: here}
    for O in [T] + [o for o in others if o is not T]:
        if O is not T:
            ctx.check(ctx.not_(AT == O), f'assembled {T} equals {O}')
        for bv in (BitVector, SMTBitVector):
            for v in ('v1', 'v2'):
                key = (O, v, bv)
                if key == here:
                    continue
                OT = mk(*key)
                what = f'{OT} ({v}, {bv.__name__})'
                ctx.check(ctx.not_(ctx.cond(bool(AT == OT))), f'assembled {T} ({ver}) equals {what}')
                ctx.check(ctx.cond(bool(AT != OT)), f'assembled {T} ({ver}) is not unequal to {what}')
                ctx.check(known.setdefault(OT, key) == key, f'{what} found under another type')
    ctx.check(known[mk(*here)] == here, 'an assembled type as a key')


def scenarios(tier, seed):
    ts = enc.all_types(tier, seed)
    comp = {k: T for k, T in ts.items() if not enc.is_leaf(T)}
    out = enc.scen('C05', {k + '/pairs': T for k, T in comp.items() if adts.count(T) <= 24}, ['v1', 'v2'], pairs,
                   max_paths=3000)
    out += enc.scen('C05', {k + '/opcodes': T for k, T in comp.items()}, ['v1', 'v2'], opcodes, max_paths=3000)
    small = {k + '/hash': T for k, T in comp.items() if adts.count(T) <= 8 and adts.width_bound(T) <= 6}
    out += enc.scen('C05', small, ['v1', 'v2'], hashes, max_paths=3000)
    some = [T for k, T in comp.items() if not k.startswith('random')][:40]
    out += enc.scen('C05', {k + '/types': T for k, T in comp.items() if not k.startswith('random')}, ['v1', 'v2'],
                    functools.partial(types, others=some))
    return out
