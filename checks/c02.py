import random

import hwtypes
from hwtypes import BitVector
from hwtypes.adt import Sum
from lib import enc
from lib.ctx import pysmt_to_z3
from lib.runner import Scenario

META = dict(
    explanation='The validity predicate of each encoder is executed on a fully symbolic opcode (Python family and SMT '
                'family) and compared with membership in the image of the encoder, reconstructed from the encodings of '
                'individual members, the published layout and the published tags; decoding is executed on symbolic '
                'valid and invalid opcodes.',
    bounds='the types of C01 (among them every enum with values in 0..7); all opcodes of the full width of each type; histories: all types built and queried in one '
           'process in several seeded orders before being checked again',
    level='other')


def exact(ctx, ver, T):
    A = enc.Asm(ver)(T)
    op = BitVector[A.width](ctx.raw(f'op{A.width}', A.width))
    ok = A.is_valid(op)
    want = enc.spec_valid(ctx, ver, T, op)
    ctx.check(ctx.iff(ok, want), 'is_valid differs from "is the encoding of some value"')
    if A.width and not enc.has_zero(T):
        sop = ctx.smt_bv(f'op{A.width}', A.width)
        sok = A.is_valid(sop)
        ctx.check(ctx.iff(sok, want), 'is_valid of the SMT family differs')
    if ver == 'v1' and issubclass(T, Sum):
        w = A.tag_width
        tag = BitVector[w](ctx.raw('tag', w))
        tags = [A.assemble_tag(k, BitVector) for k in T.field_dict]
        ctx.check(ctx.iff(A.is_valid_tag(tag), ctx.any(*[ctx.same_value(tag, t) for t in tags])),
                  'is_valid_tag differs from "is the tag of some member"')


def decode(ctx, ver, T):
    """decoding rejects exactly the invalid opcodes (v1); accepts every valid one (v1 and v2)"""
    A = enc.Asm(ver)(T)
    op = BitVector[A.width](ctx.raw('op', A.width))
    want = enc.spec_valid(ctx, ver, T, op)
    if ver == 'v2':
        ctx.assume(want)
        v = A.disassemble(op)
        ctx.check(isinstance(v, T), 'decoded to another type')
        return
    try:
        v = A.disassemble(op)
    except ValueError:
        ctx.check(ctx.not_(want), 'a valid opcode was rejected')
        return
    ctx.check(want, 'an invalid opcode was decoded')
    ctx.check(isinstance(v, T), 'decoded to another type')


def tags(ctx, ver, T):
    A = enc.Asm(ver)(T)
    w = A.tag_width
    tag = BitVector[w](ctx.raw('tag', w))
    want = ctx.any(*[ctx.same_value(tag, A.assemble_tag(k, BitVector)) for k in T.field_dict])
    try:
        k = A.disassemble_tag(tag)
    except ValueError:
        ctx.check(ctx.not_(want), 'a valid tag was rejected')
        return
    ctx.check(want, 'an invalid tag was decoded')
    ctx.check(ctx.same_value(A.assemble_tag(k, BitVector), tag), 'tag does not round trip')


def history(ctx, ver, types, order):
    ts = list(types)
    random.Random(order).shuffle(ts)
    for T in ts:
        A = enc.Asm(ver)(T)
        A.is_valid(BitVector[A.width](0))
    for T in reversed(ts):
        A = enc.Asm(ver)(T)
        op = BitVector[A.width](ctx.raw(f'op{A.width}', A.width))
        ctx.check(ctx.iff(A.is_valid(op), enc.spec_valid(ctx, ver, T, op)),
                  f'is_valid of {T} differs after other types were used')


def sharing_types():
    """types whose opcode sets coincide while their widths differ"""
    B = BitVector
    t = enc.adts.tagged
    e = enc.adts.enum
    out = []
    for n in (2, 3, 4, 5):
        out.append(e(f'H{n}', **{f'm{i}': i for i in range(n)}))
        out.append(t(f'HT{n}', **{f'm{i}': B[3] for i in range(n)}))
        out.append(t(f'HU{n}', **{f'm{i}': B[3] for i in range(n)}, zz=B[7]))
        out.append(t(f'HV{n}', **{f'm{i}': B[3] for i in range(n)}, zz=B[7], zzz=B[7]))
        out.append(t(f'HW{n}', **{f'm{i}': B[3] for i in range(n)}, za=B[7], zb=B[6], zc=B[5], zd=B[4]))
    out.append(e('Hsparse', a=0, b=1, c=2, d=4, e=5))
    out.append(t('HX', a=B[1], b=B[1], c=B[1], d=B[2], e=B[1], f=B[1], g=B[3]))
    out.append(e('Hoh', a=1, b=2, c=4))
    out.append(t('HY', z=B[1], a=B[2], b=B[2], c=B[3], d=B[2], e=B[4], f=B[5], g=B[6], h=B[7]))
    return out


def scenarios(tier, seed):
    ts = enc.all_types(tier, seed)
    out = enc.scen('C02', ts, ['v1', 'v2'], exact)
    small = {k + '/decode': T for k, T in ts.items() if enc.adts.count(T) <= 300}
    out += enc.scen('C02', small, ['v1', 'v2'], decode, max_paths=4000)
    sums = {k + '/tags': T for k, T in ts.items() if issubclass(T, Sum)}
    out += enc.scen('C02', sums, ['v1'], tags)
    fam = enc.adts.enum_family(tier, seed)
    out += enc.scen_groups(fam, ['v1', 'v2'], exact, max_paths=4000)
    out += enc.scen_groups(fam, ['v1', 'v2'], decode, max_paths=4000)
    share = sharing_types()
    for o in range(4 if tier == 'quick' else 40):
        for ver in ('v1', 'v2'):
            out.append(Scenario(f'{ver}/history.{o}', lambda ctx, ver=ver, o=o: history(ctx, ver, share, o)))
            out.append(Scenario(f'{ver}/history.all.{o}', lambda ctx, ver=ver, o=o: history(
                ctx, ver, [T for k, T in ts.items() if enc.adts.count(T) < 200], 100 + o)))
    return out
