import functools
import warnings

import hwtypes
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from lib import enc, adts
from lib.runner import Scenario

META = dict(
    explanation='The generated assembler/disassembler pair is executed on a symbolic value of each type and on symbolic opcodes; '
                'round trip, width, injectivity and the published layout are asserted.',
    bounds='enums (all numbering styles), products, sums, bits, vectors (nesting <= 3): hand-picked shapes, shipped ISAs, seeded '
           'random types (40 quick, 300 thorough), the enums of C01; constants of 1-8 bits against all values',
    assumptions=['tuples are rejected by the generator and tagged unions are not supported by it (documented limits)'],
    level='other')


def gen():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from peak import auto_assembler
    return auto_assembler


def supported(T, top=True):
    if enc.is_leaf(T):
        return True
    if issubclass(T, Enum):
        return True
    if issubclass(T, TaggedUnion) or (issubclass(T, Tuple) and not issubclass(T, Product)):
        return False
    return all(supported(F, False) for F in T.field_dict.values())


def types(tier, seed):
    from checks import c06
    out = {k: T for k, T in enc.all_types(tier, seed).items() if supported(T)}
    for k, T in c06.types(tier, seed).items():
        if k.startswith(('q.', 'rnd')) and supported(T):
            out[k] = T
    BV = BitVector
    A = adts.product('LA', a=BV[3], b=Bit)
    out['same_name_sum'] = Sum[adts.product('LX', a=BV[3]), adts.product('LY', a=BV[3]), adts.product('LZ', b=BV[3], c=Bit)]
    out['repeat_fields'] = adts.product('LR', a=BV[4], b=BV[4], c=A, d=A)
    return out


def roundtrip(ctx, T):
    asm, dis, width, layout = gen().generate_assembler(T)
    v = ctx.value(T, 'v', limit=60)
    op = asm(v)
    ctx.check(isinstance(op, (hwtypes.BitVector, Bit)), f'opcode has type {type(op)}')
    ctx.check(width == (op.size if isinstance(op, BitVector) else 1), 'reported width is not the width of the opcode')
    back = dis(op)
    ctx.check(isinstance(back, T), f'decoded to {type(back)}')
    ctx.check(ctx.same(back, v), 'decode(encode(v)) differs from v')
    check_layout(ctx, T, v, op, layout, 0, width)


def bits_of(v, w):
    if isinstance(v, Bit):
        return BitVector[1](v.ite(BitVector[1](1), BitVector[1](0)))
    return BitVector[w](v) if not isinstance(v, BitVector) else v


def check_layout(ctx, T, v, op, layout, base, top):
    if layout is None or issubclass(T, Enum):
        return
    if issubclass(T, Product):
        spans = sorted(l[:2] for l in layout.values())
        ctx.check(set(layout) == set(T.field_dict), 'layout lists other fields')
        ctx.check(spans[0][0] == 0 and spans[-1][1] == op.size, 'layout does not cover the opcode')
        ctx.check(all(a[1] == b[0] for a, b in zip(spans, spans[1:])), 'layout has gaps or overlaps')
        for k, F in T.field_dict.items():
            lo, hi, sub = layout[k]
            fv = getattr(v, k)
            fa, _, fw, _ = gen().generate_assembler(F)
            ctx.check(hi - lo == fw, f'layout width of {k}')
            ctx.check(ctx.same_value(BitVector[fw](op[lo:hi]), BitVector[fw](bits_of(fa(fv), fw))), f'field {k} is not where the layout says')
            check_layout(ctx, F, fv, op[lo:hi], sub, lo, hi)
    elif issubclass(T, Sum):
        F = type(v._value_)
        lo, hi, sub = layout[F]
        fa, _, fw, _ = gen().generate_assembler(F)
        ctx.check(hi - lo == fw and hi <= op.size, 'layout width of an alternative')
        ctx.check(ctx.same_value(BitVector[fw](op[lo:hi]), BitVector[fw](bits_of(fa(v._value_), fw))), 'payload is not where the layout says')
        if hi < op.size:
            ctx.check(op[hi:] == 0, 'bits outside the payload are set')
        check_layout(ctx, F, v._value_, op[lo:hi], sub, lo, hi)


def injective(ctx, T):
    asm, dis, width, layout = gen().generate_assembler(T)
    a, b = ctx.value(T, 'a'), ctx.value(T, 'b')
    x, y = asm(a), asm(b)
    ctx.check(ctx.implies(ctx.same_value(bits_of(x, width), bits_of(y, width)), ctx.same(a, b)), 'two values share an opcode')


def again(ctx, T):
    """a second assembler for the type is the same function"""
    a1, d1, w1, l1 = gen().generate_assembler(T)
    a2, d2, w2, l2 = gen().generate_assembler(T)
    v = ctx.value(T, 'v', limit=60)
    ctx.check(w1 == w2, 'width differs')
    ctx.check(ctx.same_value(a1(v), a2(v)), 'two assemblers of one type differ')
    ctx.check(ctx.same(d2(a1(v)), v), 'opcode of one assembler is not read back by another')


def const(ctx, w, k):
    c = ctx.choice('kind', ['bv', 'signed', 'unsigned', 'bit'])
    T = {'bv': BitVector[w], 'signed': SIntVector[w], 'unsigned': UIntVector[w], 'bit': Bit}[c]
    const = T(k) if c != 'bit' else Bit(k & 1)
    asm, dis, width, layout = gen().generate_assembler(const)
    ctx.check(width == (1 if c == 'bit' else w), 'width of a constant')
    x = ctx.value(T, 'x.' + c)
    eq = ctx.same_value(x, const)
    for what, f in (('assembler', asm), ('disassembler', dis)):
        try:
            r = f(x)
        except ValueError:
            ctx.check(ctx.not_(eq), f'{what} refused the declared constant')
        else:
            ctx.check(eq, f'{what} accepted another constant')
            ctx.check(type(r) is type(x), f'{what} returned {type(r)}')
            ctx.check(ctx.same_value(r, const), f'{what} returned another value')


def unsupported(ctx):
    g = gen().generate_assembler
    for bad in (Tuple[Bit, BitVector[2]], int, 'x', None, object()):
        try:
            g(bad)
        except TypeError:
            ctx.check(True, '')
        else:
            ctx.fail(f'{bad} accepted')


def scenarios(tier, seed):
    out = [Scenario('unsupported', unsupported)]
    for w, k in ((1, 1), (4, 0), (4, 9), (8, 200), (8, 255)):
        out.append(Scenario(f'const/{w}/{k}', functools.partial(const, w=w, k=k)))
    for k, T in types(tier, seed).items():
        out.append(Scenario(k, functools.partial(roundtrip, T=T), max_paths=4000))
        out.append(Scenario(k + '/again', functools.partial(again, T=T), max_paths=4000))
        if adts.count(T) <= 20:
            out.append(Scenario(k + '/inj', functools.partial(injective, T=T), max_paths=4000))
    def group(ctx, ts, fn):
        fn(ctx, ts[ctx.choice('type', range(len(ts)))])
    for g, ts in adts.enum_family(tier, seed).items():
        for fn in (roundtrip, injective):
            out.append(Scenario(f'enums.{g}/{fn.__name__}', functools.partial(group, ts=ts, fn=fn), max_paths=4000))
    return out
