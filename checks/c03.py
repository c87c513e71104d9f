import hwtypes
from hwtypes import BitVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from lib import enc, adts
from lib.runner import Scenario

META = dict(
    explanation='For a symbolic value, the bits found at every published position (layout table, nested sub-path '
                'slices, tag slice, extract/match) are compared with the independently produced encoding of that part; '
                'positions are checked to be disjoint, in range and (for products) to cover the encoding.',
    bounds='the types of C01; all values of each type (products above 300 variant combinations one field at a time); all '
           'sub-paths of each type; structurally identical types are rebuilt 6 times and their encodings compared',
    level='other')


def table(ctx, ver, T):
    """shape of the published layout"""
    A = enc.Asm(ver)(T)
    if ver == 'v2':
        # v2 publishes positions through extract(): every bit of the result names one bit of the opcode
        op = BitVector[A.width](ctx.raw('op', A.width))
        if issubclass(T, (Product, Tuple)):
            total = sum(A.extract(op, k).size for k in T.field_dict)
            ctx.check(total == A.width, 'fields do not cover the encoding')
            import itertools
            acc = BitVector[0](0)
            for k, F in T.field_dict.items():
                e = A.extract(op, k)
                ctx.check(e.size == enc.Asm(ver)(F).width, f'field {k} has width {e.size}')
            if issubclass(T, Product):
                for i, k in enumerate(T.field_dict):
                    ctx.check(ctx.same_value(A.extract(op, i), A.extract(op, k)), f'position {i} is not field {k}')
            # disjoint and covering: the opcode is determined by its fields
            op2 = BitVector[A.width](ctx.raw('op2', A.width))
            same = ctx.all(*[ctx.same_value(A.extract(op, k), A.extract(op2, k)) for k in T.field_dict])
            ctx.check(ctx.implies(same, ctx.same_value(op, op2)), 'two opcodes with the same fields')
        else:
            for k, F in T.field_dict.items():
                e = A.extract(op, k)
                ctx.check(e.size == enc.Asm(ver)(F).width, f'member {k} has width {e.size}')
            # at most one member matches
            ms = [A.match(op, k) for k in T.field_dict]
            for i in range(len(ms)):
                for j in range(i):
                    ctx.check(ctx.not_(ctx.all(ms[i], ms[j])), 'two members match one opcode')
        return
    lay = A.layout
    names = set(T.field_dict)
    ctx.check(names <= set(lay), 'a field has no position')
    rs = []
    for k, F in T.field_dict.items():
        lo, hi = lay[k]
        ctx.check(0 <= lo <= hi <= A.width, f'position of {k} is out of range')
        ctx.check(hi - lo == enc.Asm(ver)(F).width, f'position of {k} has the wrong width')
        rs.append((lo, hi))
        s = A.sub[k]
        ctx.check((s.idx.start, s.idx.stop) == (lo, hi), f'sub path of {k} differs from the layout')
    if issubclass(T, (Product, Tuple)):
        bits = sorted(b for lo, hi in rs for b in range(lo, hi))
        ctx.check(bits == list(range(A.width)), 'fields do not tile the encoding')
    else:
        tl, th = A.tag_layout
        ctx.check(th - tl == A.tag_width and 0 <= tl <= th <= A.width, 'tag position')
        ctx.check((A.sub.tag_idx.start, A.sub.tag_idx.stop) == (tl, th), 'tag sub path')
        for lo, hi in rs:
            ctx.check(hi <= tl or th <= lo, 'a member overlaps the tag')
        tags = [A.assemble_tag(k, BitVector) for k in T.field_dict]
        for i in range(len(tags)):
            for j in range(i):
                ctx.check(ctx.not_(ctx.same_value(tags[i], tags[j])), 'two members share a tag')


def walk(ctx, ver, A, T, op, v, path, root, base_ok):
    """compare every part of v with the bits at its published position in op (root encoding)"""
    if enc.is_leaf(T) or issubclass(T, Enum):
        return
    for k, F in T.field_dict.items():
        if issubclass(T, TaggedUnion):
            m = getattr(v, k)
            sub = m.value if m.match else None
        elif issubclass(T, Sum):
            m = v[k]
            sub = m.value if m.match else None
        else:
            sub = v.value_dict[k]
        FA = enc.Asm(ver)(F)
        if ver == 'v1':
            s = root.sub[tuple(path + [k])]
            if all(isinstance(p, str) for p in path + [k]):
                g = root.sub
                for p in path + [k]:
                    g = getattr(g, p)
                ctx.check(g.idx == s.idx, 'attribute and item sub paths differ')
            if sub is not None:
                got = op[s.idx]
                ctx.check(ctx.same_value(got, FA.assemble(sub)), f'bits of {path + [k]} are elsewhere')
                walk(ctx, ver, FA, F, op, sub, path + [k], root, base_ok)
            if issubclass(T, Sum):
                t = op[(root.sub[tuple(path)] if path else root.sub).tag_idx]
                ctx.check(ctx.iff(ctx.same_value(t, A.assemble_tag(k, BitVector)), sub is not None),
                          f'tag of {path} does not tell member {k}')
        else:
            if issubclass(T, Sum):
                ctx.check(ctx.iff(A.match(op, k), sub is not None), f'match of {k} at {path} is wrong')
                if not isinstance(k, str):
                    pass
            if sub is not None:
                got = A.extract(op, k)
                ctx.check(ctx.same_value(got, FA.assemble(sub)), f'bits of {path + [k]} are elsewhere')
                walk(ctx, ver, FA, F, got, sub, path + [k], root, base_ok)
    if ver == 'v2' and issubclass(T, TaggedUnion):
        # matching by member type: true iff the active member has that type
        for F in set(T.field_dict.values()):
            act = [k for k in T.field_dict if getattr(v, k).match][0]
            ctx.check(ctx.iff(A.match(op, F), T.field_dict[act] is F), f'match by type {F} is wrong')


def positions(ctx, ver, T):
    A = enc.Asm(ver)(T)
    v = ctx.value(T, 'v', limit=300)
    op = A.assemble(v)
    walk(ctx, ver, A, T, op, v, [], A, True)
    ctx.check(True, 'walked')


def enum_codes(ctx, ver, T):
    """explicit member values are kept, all codes distinct and as short as the largest needs"""
    A = enc.Asm(ver)(T)
    ms = list(T.enumerate())
    cs = [int(A.assemble(m)) for m in ms]
    ctx.check(len(set(cs)) == len(cs), 'two members share a code')
    for m, c in zip(ms, cs):
        if isinstance(m._value_, int):
            ctx.check(c == m._value_, f'{m} is encoded as {c}')
    ctx.check(A.width == max(cs).bit_length(), 'code width')


def determinism(ctx, ver, make):
    """the encoding depends on the definition only: rebuilt types encode alike"""
    base = None
    for i in range(6):
        junk = [object() for _ in range(i * 37)]
        T = make(i)
        A = enc.Asm(ver)(T)
        v = rebuild(ctx, T, 'v')
        op = A.assemble(v)
        if base is None:
            base = op
        else:
            ctx.check(op.size == base.size, 'width of a rebuilt type differs')
            ctx.check(ctx.same_value(op, base), 'encoding of a rebuilt type differs')
        del junk


def rebuild(ctx, T, name):
    """like ctx.value, but choices are by name so that they are the same for every rebuilt copy"""
    if enc.is_leaf(T):
        return ctx.value(T, name)
    if issubclass(T, Enum):
        n = ctx.choice(name, sorted(T.field_dict))
        return T.field_dict[n]
    if issubclass(T, TaggedUnion):
        f = ctx.choice(name + '.#', sorted(T.field_dict))
        return T(**{f: rebuild(ctx, T.field_dict[f], f'{name}.{f}')})
    if issubclass(T, Sum):
        fs = {F.__name__: F for F in T.field_dict.values()}
        f = ctx.choice(name + '.#', sorted(fs))
        return T(rebuild(ctx, fs[f], f'{name}.{f}'))
    return T(*[rebuild(ctx, F, f'{name}.{k}') for k, F in T.field_dict.items()])


def makers():
    B = BitVector

    def m1(i):
        return Sum[adts.enum('O1', Add=None, Sub=None), adts.enum('O2', Or=None, And=None, XOr=None),
                   adts.product('PP', a=B[3])]

    def m2(i):
        return adts.tagged('TT', zeta=B[3], alpha=adts.enum('O3', x=None, y=3, z=None), mid=B[3], beta=B[4])

    def m3(i):
        return adts.product('PQ', s=m1(i), t=m2(i), e=adts.enum('O4', a=None, b=None, c=1, d=None))

    def m4(i):
        return Sum[tuple(adts.product(n, a=B[w], b=B[2]) for n, w in
                         [('Mul', 2), ('Add', 3), ('Sub', 1), ('Div', 5), ('Ld', 4), ('St', 4), ('Jmp', 6)])]
    return dict(sum=m1, tagged=m2, product=m3, bigsum=m4)


def scenarios(tier, seed):
    ts = enc.all_types(tier, seed)
    comp = {k: T for k, T in ts.items() if not enc.is_leaf(T) and not issubclass(T, Enum)}
    enums = {k: T for k, T in ts.items() if isinstance(T, type(Enum)) and issubclass(T, Enum)}
    out = enc.scen('C03', {k + '/table': T for k, T in comp.items()}, ['v1', 'v2'], table)
    out += enc.scen('C03', {k + '/positions': T for k, T in comp.items()}, ['v1', 'v2'], positions, max_paths=4000)
    out += enc.scen('C03', enums, ['v1', 'v2'], enum_codes)
    for n, mk in makers().items():
        for ver in ('v1', 'v2'):
            out.append(Scenario(f'{ver}/determinism.{n}', lambda ctx, ver=ver, mk=mk: determinism(ctx, ver, mk)))
    return out
