import z3
import hwtypes
from hwtypes import SMTBitVector, SMTBit

from lib import adts, enc, fam, maplib as L, rules as RU
from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='SMTForms is executed on assembled SMT types; its symbolic leaves, tags, match conditions and rebuilt values are '
                'z3 terms. For every form of the type (computed independently), every leaf value and every tag the solver decides '
                'that exactly that form matches and that the rebuilt value has, at every position of the published layout, the '
                'leaf or tag that belongs there; decomposing an arbitrary valid value must give its own leaves and tags.',
    bounds='composite types of the shape family, example ISAs and random types with at most 120 forms; all leaf values, all tags',
    level='other')


def split_varmap(varmap):
    """leaves, tags, match conditions of a varmap"""
    from peak.mapper.utils import Match
    from peak.assembler import _TAG
    leaves, tags, match = {}, {}, {}
    for p, v in varmap.items():
        if p and p[-1] is Match:
            match[p[:-1]] = v
        elif p and p[-1] is _TAG:
            tags[p[:-1]] = v
        else:
            leaves[p] = v
    return leaves, tags, match


def choices(T, form, path=()):
    """{sum path: alternative} of a form given by its leaf paths"""
    T = L.strip_modifiers(T)
    if L.is_leaf(T):
        return {}
    out = {}
    if issubclass(T, (L.Sum, L.TaggedUnion)):
        ks = [k for k in T.field_dict if any(p[:len(path) + 1] == path + (k,) for p in form)]
        assert len(ks) == 1
        return {path: ks[0], **choices(T.field_dict[ks[0]], form, path + (ks[0],))}
    for k, F in T.field_dict.items():
        out.update(choices(F, form, path + (k,)))
    return out


def sub_type(T, path):
    for k in path:
        T = L.strip_modifiers(T).field_dict[k]
    return L.strip_modifiers(T)


def tag_of(T, path, k):
    from peak.assembler import Assembler
    return z3_of(Assembler(sub_type(T, path)).assemble_tag(k, hwtypes.BitVector))


def same(got, want):
    """z3: a value has the bits `want` (None: unused)"""
    got = fam.bits(got)
    bs = [got[i] for i in range(got.size)] if isinstance(got, hwtypes.AbstractBitVector) else [got]
    if len(bs) != len(want):
        return z3.BoolVal(False)
    bit = lambda b: z3_of(b) if isinstance(b, hwtypes.AbstractBit) else b
    return z3.And(True, *[bit(a) == bit(b) for a, b in zip(bs, want) if b is not None])


def decompose(T):
    def scenario(ctx):
        from peak import family
        from peak.mapper.utils import SMTForms
        AT = family.SMTFamily().get_adt_t(T)
        forms, varmap, value = SMTForms()(AT)
        oracle = L.forms(T)
        leaves, tags, match = split_varmap(varmap)
        allp = {p: t for f in oracle for p, (t, c) in f.items()}
        ctx.check(set(leaves) == set(allp), f'leaves: {sorted(map(str, leaves))}')
        ctx.check(len(forms) == len(oracle), f'{len(forms)} forms instead of {len(oracle)}')
        sums = {p for f in oracle for p in choices(T, f)}
        ctx.check(set(tags) == sums and set(match) == sums, f'tags: {sorted(map(str, tags))}')
        for p, t in allp.items():
            w = 1 if issubclass(t, hwtypes.AbstractBit) else L.leaf_width(t)
            ok = isinstance(leaves[p], SMTBit) if issubclass(t, hwtypes.AbstractBit) else \
                isinstance(leaves[p], SMTBitVector) and leaves[p].size == w
            ctx.check(ok, f'leaf {p} is a {type(leaves[p])}')
        for p in sums:
            S = sub_type(T, p)
            ctx.check(set(match[p]) == set(S.field_dict), f'alternatives of {p}')
            for k in S.field_dict:
                # the decision for an alternative is that the tag is the alternative's, whatever the tag
                if isinstance(tags[p], SMTBitVector) and tags[p].size:
                    ctx.check(z3_of(match[p][k]) == (z3_of(tags[p]) == tag_of(T, p, k)), f'match condition of {p}, {k}')
        i = ctx.choice('form', range(len(oracle)))
        f = oracle[i]
        ch = choices(T, f)
        mine = [g for g in forms if g.path_dict == ch]
        ctx.check(len(mine) == 1, f'{len(mine)} forms decide {ch}')
        g = mine[0]
        ctx.check(set(g.varmap) == set(f), f'leaves of the form {ch}')
        ctx.check(all(g.varmap[p] is leaves[p] for p in f), f'the leaves of the form are not the shared ones')
        pre = [z3_of(tags[p]) == tag_of(T, p, k) for p, k in ch.items() if tags[p].size]
        inside = ctx.all(*[z3_of(match[p][k]) for p, k in ch.items()])
        ctx.check(ctx.implies(ctx.all(*pre), inside), f'a value of the form {ch} does not match it')
        others = [ctx.all(*[z3_of(match[p][k]) for p, k in h.path_dict.items()]) for h in forms if h is not g]
        ctx.check(ctx.implies(ctx.all(*pre), ctx.not_(ctx.any(False, *others))), f'a value of the form {ch} matches another form')
        want = L.bit_list(T, (), leaves_of(leaves, f), SMTBitVector)
        ctx.check(ctx.implies(ctx.all(*pre), same(g.value, want)), f'value rebuilt from the form {ch}')
        ctx.check(ctx.implies(ctx.all(*pre), same(value, want)), f'value rebuilt from all forms, for {ch}')
    return scenario


def leaves_of(leaves, f):
    return {p: leaves[p] for p in f}


def given(T):
    """decomposing an arbitrary valid value"""
    def scenario(ctx):
        from peak import family
        from peak.assembler import Assembler
        from peak.mapper.utils import SMTForms
        SMT = family.SMTFamily()
        AT = SMT.get_adt_t(T)
        A = Assembler(T)
        oracle = L.forms(T)
        i = ctx.choice('form', range(len(oracle)))
        f = oracle[i]
        ch = choices(T, f)
        sym = {p: L.smt_sym(f'c21.{n}', t) for n, (p, (t, c)) in enumerate(f.items())}
        want = L.bit_list(T, (), sym, SMTBitVector)
        # unused bits are arbitrary
        import pysmt.shortcuts as smt
        full = L.concat([SMTBit(smt.Symbol(f'c21.pad{n}', smt.BOOL)) if b is None else b for n, b in enumerate(want)], SMTBitVector)
        v = AT(full)
        forms, varmap, value = SMTForms()(AT, value=v)
        leaves, tags, match = split_varmap(varmap)
        for p, s in sym.items():
            ctx.check(p in leaves and type(leaves[p]) is not None and same(leaves[p], [s[n] for n in range(s.size)]
                      if isinstance(s, SMTBitVector) else [s]), f'leaf {p} of a given value')
        for p, k in ch.items():
            if tags[p].size:
                ctx.check(z3_of(tags[p]) == tag_of(T, p, k), f'tag of {p} of a given value')
            for k2, c in match[p].items():
                ctx.check(z3_of(c) == z3.BoolVal(k2 == k), f'match of {p}, {k2} of a given value')
        ctx.check(len(forms) == len(oracle), f'{len(forms)} forms instead of {len(oracle)}')
        mine = [g for g in forms if g.path_dict == ch]
        ctx.check(len(mine) == 1 and set(mine[0].varmap) == set(f), f'form {ch} of a given value')
        for p in f:
            ctx.check(same(mine[0].varmap[p], [sym[p][n] for n in range(sym[p].size)] if isinstance(sym[p], SMTBitVector) else
                           [sym[p]]), f'leaf {p} of the form of a given value')
        ctx.check(same(mine[0].value, want), 'value of the form of a given value')
        ctx.check(same(value, want), 'value rebuilt from a given value')
    return scenario


def scenarios(tier, seed):
    types = enc.all_types(tier, seed)
    for name, T in types.items():
        if not fam.is_adt(T) or L.is_leaf(T) or enc.has_zero(T):
            continue
        n = nforms(T)
        if n > (120 if tier == 'quick' else 1000):
            continue
        yield Scenario(f'{name}/forms', decompose(T))
        yield Scenario(f'{name}/given', given(T))


def nforms(T):
    T = L.strip_modifiers(T)
    if L.is_leaf(T):
        return 1
    ns = [nforms(F) for F in T.field_dict.values()]
    if issubclass(T, (L.Sum, L.TaggedUnion)):
        return sum(ns)
    r = 1
    for n in ns:
        r *= n
    return r
