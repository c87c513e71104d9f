import hwtypes
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from lib import enc, adts
from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='Assembled (bit-level) values are built from a symbolic value in every way the library offers - from '
                'the value, from its bits, from another assembled value, from its fields - and read back field by '
                'field, recursively, in the Python and the SMT family.',
    bounds='the composite types of C01; all values of each type (above 300 variant combinations one field at a time); '
           'padding default 0 and 1; types without any bits only through the value route',
    level='other')


def bits_of(x, BV=BitVector):
    """bits of an assembled value / leaf"""
    if isinstance(x, (hwtypes.AbstractBit,)):
        return x.ite(x.get_family().BitVector[1](1), x.get_family().BitVector[1](0))
    if isinstance(x, hwtypes.AbstractBitVector):
        return x
    return x._to_bitvector_()


def same_bits(ctx, a, b):
    a, b = bits_of(a), bits_of(b)
    if a.size != b.size:
        return False
    if a.size == 0:
        return True
    return ctx.cond(z3_eq(a, b))


def z3_eq(a, b):
    import z3
    return z3.simplify(z3_of(a) == z3_of(b))


def members(T, v):
    """(key, active?, subvalue)"""
    for k, F in T.field_dict.items():
        if issubclass(T, TaggedUnion):
            m = getattr(v, k)
            yield k, F, m.match, (m.value if m.match else None)
        elif issubclass(T, Sum):
            m = v[k]
            yield k, F, m.match, (m.value if m.match else None)
        else:
            yield k, F, True, v.value_dict[k]


def access(x, T, k):
    return getattr(x, k) if isinstance(k, str) else x[k]


def check_access(ctx, ver, AT, T, x, v, path):
    A = enc.Asm(ver)
    BV = AT.bv_type
    fam = BV.get_family()
    for k, F, act, sub in members(T, v):
        y = access(x, T, k)
        ft = access(AT, T, k)
        if issubclass(T, Sum):
            ctx.check(ctx.iff(y.match, act), f'match flag of {path}.{k} is wrong')
            y = y.value
        ctx.check(isinstance(y, ft), f'{path}.{k} has type {type(y)}, its type says {ft}')
        if not act:
            continue
        ctx.check(same_bits(ctx, y, A(F).assemble(sub)), f'{path}.{k} differs from the value it was built from')
        if issubclass(F, Enum):
            continue
        if enc.is_leaf(F):
            want = (fam.Bit if issubclass(F, Bit) else
                    (fam.Signed if issubclass(F, hwtypes.SIntVector) else fam.Unsigned
                     if issubclass(F, hwtypes.UIntVector) else fam.BitVector)[F.size])
            ctx.check(type(y) is want, f'{path}.{k} has type {type(y)} instead of {want}')
        else:
            check_access(ctx, ver, ft, F, y, sub, f'{path}.{k}')


def build_fields(ctx, ver, AT, T, v, how):
    """assembled value built by from_fields, bottom up"""
    A = enc.Asm(ver)

    def field(F, ft, sub):
        BV = AT.bv_type
        if issubclass(F, Bit):
            return BV.get_family().Bit(sub)
        if issubclass(F, BitVector):
            return ft(sub) if how != 'bv' or ver == 'v1' else BV[F.size](sub)
        if issubclass(F, Enum):
            if how == 'bv':
                return A(F).assemble(sub, BV)
            return ft(sub)
        if how == 'bv':
            return A(F).assemble(sub, BV)
        if A(F).width == 0:
            return ft(sub)
        return build_fields(ctx, ver, ft, F, sub, how)
    if issubclass(T, TaggedUnion):
        for k, F, act, sub in members(T, v):
            if act:
                return AT.from_fields(**{k: field(F, access(AT, T, k), sub)})
    if issubclass(T, Sum):
        for k, F, act, sub in members(T, v):
            if act:
                return AT.from_fields(k, field(F, AT[k], sub))
    fs = {k: field(F, access(AT, T, k), sub) for k, F, act, sub in members(T, v)}
    if issubclass(T, Product):
        return AT.from_fields(**fs) if how != 'pos' else AT.from_fields(*fs.values())
    return AT.from_fields(*fs.values())


def build(ctx, ver, T, fam):
    A = enc.Asm(ver)(T)
    BV = BitVector if fam == 'py' else SMTBitVector
    AT = enc.AADT(ver)[T, enc.Asm(ver), BV]
    v = ctx.value(T, 'v', limit=300)
    op = A.assemble(v)
    if fam == 'py':
        x = AT(v)
        ctx.check(same_bits(ctx, x, op), 'assembled value differs from the encoding')
        ctx.check(type(bits_of(x)) is BV[A.width], f'assembled value holds {type(bits_of(x))}')
        z = AT(op)
        ctx.check(same_bits(ctx, z, op), 'value made from bits differs from the bits')
        ctx.check(same_bits(ctx, AT(x), op), 'copy differs')
        ctx.check(ctx.iff(AT._is_valid_(op), True), 'valid encoding rejected by the assembled type')
        check_access(ctx, ver, AT, T, x, v, '')
        for how in ('adt', 'bv', 'pos'):
            if A.width == 0:
                continue
            y = build_fields(ctx, ver, AT, T, v, how)
            ctx.check(isinstance(y, AT), f'from_fields made a {type(y)}')
            ctx.check(same_bits(ctx, y, op), f'value made from its fields ({how}) differs')
    else:
        sop = ctx.smt_bv('op', A.width)
        pop = BitVector[A.width](ctx.raw('op', A.width))
        ctx.assume(ctx.same_value(pop, op))
        x = AT(sop)
        ctx.check(same_bits(ctx, x, op), 'SMT value made from bits differs from the bits')
        check_access(ctx, ver, AT, T, x, v, '')


def accessors(ctx, ver, T, fam):
    """field access of *any* opcode (valid or not) reads the published position, in both families"""
    A = enc.Asm(ver)(T)
    BV = BitVector if fam == 'py' else SMTBitVector
    AT = enc.AADT(ver)[T, enc.Asm(ver), BV]
    pop = BitVector[A.width](ctx.raw('op', A.width))
    op = pop if fam == 'py' else ctx.smt_bv('op', A.width)
    x = AT(op)

    def walk(x, AT, A, T, bits, path):
        for k, F in T.field_dict.items():
            y = access(x, T, k)
            if issubclass(T, Sum):
                ctx.check(ctx.iff(y.match, enc.tag_is(ctx, ver, A, bits, k)), f'match flag of {path}.{k} is not its tag')
                y = y.value
            sub = enc.part(ver, A, bits, k)
            ctx.check(same_bits(ctx, y, sub), f'{path}.{k} is not the bits at its position')
            if not enc.is_leaf(F) and not issubclass(F, Enum):
                walk(y, access(AT, T, k), enc.Asm(ver)(F), F, sub, f'{path}.{k}')
    walk(x, AT, A, T, pop, '')


def padding(ctx, ver, T):
    """from_fields of a union: the bits outside tag and member are the requested default"""
    A = enc.Asm(ver)(T)
    AT = enc.AADT(ver)[T, enc.Asm(ver), BitVector]
    v = ctx.value(T, 'v', limit=300)
    for k, F, act, sub in members(T, v):
        if not act:
            continue
        f = sub if enc.is_leaf(F) else access(AT, T, k)(sub)
        for d in (0, 1):
            y = AT.from_fields(**{k: f}, default_bv=d) if isinstance(k, str) else AT.from_fields(k, f, default_bv=d)
            op = bits_of(y)
            lo, hi = A.layout[k]
            tl, th = A.tag_layout
            ctx.check(ctx.same_value(op[lo:hi], A_(ver, F).assemble(sub)), 'payload differs')
            ctx.check(ctx.same_value(op[tl:th], A.assemble_tag(k, BitVector)), 'tag differs')
            for b in range(A.width):
                if not (lo <= b < hi or tl <= b < th):
                    ctx.check(ctx.iff(op[b], bool(d)), f'padding bit {b} is not {d}')


def A_(ver, F):
    return enc.Asm(ver)(F)


def enum_members(ctx, ver, T):
    """members read off the assembled type carry the member's encoding"""
    AT = enc.AADT(ver)[T, enc.Asm(ver), BitVector]
    A = enc.Asm(ver)(T)
    m = ctx.choice('m', sorted(T.field_dict))
    mem = T.field_dict[m]
    x = AT(mem)
    ctx.check(same_bits(ctx, x, A.assemble(mem)), 'assembled member differs from its encoding')
    op = BitVector[A.width](ctx.raw('op', A.width))
    y = AT(op)
    ctx.check(ctx.iff(y == mem, ctx.same_value(op, A.assemble(mem))), 'comparison with a member is wrong')


def scenarios(tier, seed):
    ts = enc.all_types(tier, seed)
    comp = {k: T for k, T in ts.items() if not enc.is_leaf(T) and not issubclass(T, Enum)}
    enums = {k: T for k, T in ts.items() if isinstance(T, type(Enum)) and issubclass(T, Enum)}
    P = __import__('functools').partial
    out = enc.scen('C04', {k + '/build': T for k, T in comp.items()}, ['v1', 'v2'], P(build, fam='py'), max_paths=4000)
    nz = {k: T for k, T in comp.items() if not enc.has_zero(T)}
    out += enc.scen('C04', {k + '/build.smt': T for k, T in nz.items() if adts.count(T) <= 60}, ['v1', 'v2'],
                    P(build, fam='smt'), max_paths=4000)
    out += enc.scen('C04', {k + '/access': T for k, T in comp.items()}, ['v1', 'v2'], P(accessors, fam='py'))
    out += enc.scen('C04', {k + '/access.smt': T for k, T in nz.items()}, ['v1', 'v2'], P(accessors, fam='smt'))
    out += enc.scen('C04', {k + '/padding': T for k, T in nz.items() if issubclass(T, Sum)}, ['v1'], padding,
                    max_paths=4000)
    out += enc.scen('C04', enums, ['v1', 'v2'], enum_members)
    return out
