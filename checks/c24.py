import functools
import itertools

import z3

from lib import boxes, efsmt, fam, maplib as L
from lib.runner import Scenario

META = dict(
    explanation='(1) The real Multi() formula and refinement loop are run with a solver whose answers are symbolic and constrained only '
                'by what is asked of it; every solution reported is executed, instruction by instruction along the reported '
                'routing, on symbolic operands and compared with the operation. (2) An independent exists-forall search over '
                'routings and instructions decides whether any solution exists, and is compared with what the real search '
                'returns. (3) Index encodings: exactly the valid codes decode, each to the one index it matches, for every code.',
    bounds='1 and 2 instructions (3 for one case, 8 thorough); 13 architectures with up to 11 operations at 3-bit words; both index '
           'encodings, both output encodings (use_real); solutions found in the first or second round of refinement with arbitrary '
           'solver answers, and those z3 finds; index variables of 1 to 20 entries (40 thorough)',
    level='other')

CASES = {
    1: {'alu': ['add', 'nand', 'inc', 'or'], 'imm': ['add', 'zero', 'add5', 'isz', 'add3'], 'union': ['two', 'and', 'inc', 'sub'],
        'sum': ['sub', 'not', 'add3'], 'signed': ['sadd', 'sshr', 'slt', 'add'], 'bits': ['bimp', 'bboth', 'xor3'],
        'enumd': ['enum', 'add'], 'udata': ['id', 'pairid'], 'lsum': ['inc', 'not', 'm5', 'add'],
        'pair': ['eswap', 'etwice', 'esparse'], 'uni': ['uget', 'id', 'm3', 'dbl'], 'kimm': ['cadd', 'six', 'inc'],
        'chain': ['f', 'ff', 'fff', 'not', 'same'], 'nested': ['g', 'gh', 'h0', 'add'], 'forms': ['ex', 'np', 'not']},
    2: {'alu': ['add', 'add3', 'submask', 'maskadd', 'nandx', 'x2m'], 'imm': ['add5', 'isz'], 'union': ['add3', 'two', 'nandx'],
        'sum': ['not', 'm5'], 'signed': ['sadd', 'slt'], 'bits': ['bboth', 'xor3', 'maj', 'andor'],
        'enumd': ['enum'], 'lsum': ['inc', 'm5', 'neg'], 'pair': ['eswap', 'etwice', 'esparse'], 'uni': ['uget', 'm3'],
        'kimm': ['cadd', 'six'], 'chain': ['fff', 'ff', 'not'], 'nested': ['h0'], 'forms': ['ex', 'not'], 'fan': ['fan']},
    3: {'fan': ['fan'], 'lsum': ['m5', 'neg'], 'bits': ['xor3'], 'uni': ['m3'], 'kimm': ['six'], 'chain': ['fff'], 'pair': ['etwice']},
}


# ---------------------------------------------------------------- the real search
@functools.lru_cache(None)
def multi(arch, op, n, ivar, real):
    """the real Multi(); None when it refuses because no routing exists"""
    from lib import multiprogs as M
    from peak.mapper.multi import Multi, OneHot, Binary
    try:
        return Multi(M.ARCH[arch], M.ir(arch, op), n, IVar=dict(OneHot=OneHot, Binary=Binary)[ivar], use_real=real)
    except ValueError as e:
        if 'inding' in str(e):
            return None
        raise


def report(found):
    """what the returned object reports, without printing symbolic values"""
    import contextlib
    import io
    import peak.mapper.multi as mm
    mm.print = lambda *a, **k: None
    with contextlib.redirect_stdout(io.StringIO()):
        return found()


def search(ctx, solve, how):
    """(info or None, answers, whether an answer was reached)"""
    from lib.symex import EngineError
    from peak.mapper.mapper import LoopException
    ans = efsmt.LoopAnswers(ctx) if how == 'any' else efsmt.Answers(ctx)
    try:
        if how == 'loop':
            got = solved(solve)
            return got, ans, True
        for limit in (0, 1):
            try:
                with ans.installed():
                    got = solve(maxloops=limit)
                    return (None if got is None else report(got)), ans, True
            except LoopException:
                if ans.solves:
                    return None, ans, False
        return None, ans, False
    except EngineError:
        raise
    except Exception as e:
        ans.check(False, f'solve() raised {type(e).__name__}: {e}')
        return None, ans, False


@functools.lru_cache(None)
def solved(solve):
    got = solve(maxloops=None)
    return None if got is None else report(got)


# ---------------------------------------------------------------- independent search
def fields(T):
    return L._sub(L.strip_modifiers(T))


def width(T):
    return fam.Assembler_width(L.strip_modifiers(T))


def valid(T, z):
    """z3: the bits z (a BitVec, or a Bool for a Bit) encode a value of T"""
    from peak.assembler import Assembler
    from hwtypes import BitVector, AbstractBit
    from hwtypes.adt import Sum, TaggedUnion
    T = L.strip_modifiers(T)
    if L.is_leaf(T):
        return L.leaf_valid(T, z)
    A = Assembler(T)
    if issubclass(T, (Sum, TaggedUnion)):
        lo, hi = A.tag_layout
        cs = []
        for k, F in fields(T):
            tag = z3.Extract(hi - 1, lo, z) == z3.BitVecVal(int(A.assemble_tag(k, BitVector)), hi - lo)
            cs.append(z3.And(tag, valid(F, part(A, k, F, z))))
        return z3.Or(*cs)
    return z3.And(*[valid(F, part(A, k, F, z)) for k, F in fields(T)])


def part(A, k, F, z):
    from hwtypes import AbstractBit
    lo, hi = A.layout[k][:2]
    b = z3.Extract(hi - 1, lo, z)
    F = L.strip_modifiers(F)
    return b == 1 if isinstance(F, type) and issubclass(F, AbstractBit) else b


def symbols(prefix, T):
    """{field: (type, pysmt value in the declared type, z3 variable)}"""
    import pysmt.shortcuts as smt
    from hwtypes import AbstractBit, SMTBit, SMTBitVector
    from peak import family
    out = {}
    for k, F in fields(T):
        F = L.strip_modifiers(F)
        n = f'{prefix}.{k}'
        if issubclass(F, AbstractBit):
            out[k] = F, SMTBit(smt.Symbol(n, smt.BOOL)), z3.Bool(n)
            continue
        w = width(F)
        s = smt.Symbol(n, smt.BVType(w))
        v = family.SMTFamily().get_adt_t(F)(SMTBitVector[w](s)) if fam.is_adt(F) else fam.leaf_in(F, SMTBitVector.get_family())(s)
        out[k] = F, v, z3.BitVec(n, w)
    return out


def run_smt(fc, syms, tag):
    from peak import family
    C = fc(family.SMTFamily())
    b = boxes.Box(tag)
    obj = C()
    b.setup(obj)
    out = fam.as_tuple(obj(**{k: v for k, (T, v, z) in syms.items()}))
    b.done()
    ks = list(L.strip_modifiers(C.output_t).field_dict)
    assert len(ks) == len(out)
    return {k: boxes.term(v) for k, v in zip(ks, out)}, b


@functools.lru_cache(None)
def exists(arch, op, n):
    """whether n instructions with some routing compute the operation; exact"""
    from lib import multiprogs as M
    A, I = M.ARCH[arch], M.ir(arch, op)
    a_in, i_in, a_out, i_out = A.Py.input_t, I.Py.input_t, A.Py.output_t, I.Py.output_t
    consts = [k for k, T in L._sub(a_in) if L.is_const(L.unwrap_modifier(T)[1])]
    isyms = symbols('MI', i_in)
    iout, ibox = run_smt(I, isyms, 'MIB')
    have = [((), k, T, z) for k, (T, v, z) in isyms.items()]        # sources: (kind, name, type, term)
    facts, foralls, assume, allbox = [], [z for k, (T, v, z) in isyms.items()], [], [ibox]
    assume += [valid(T, z) for k, (T, v, z) in isyms.items()]
    used = {k: [] for k in isyms}
    sub = []
    for i in range(n):
        syms = symbols(f'MA{i}', a_in)
        out, box = run_smt(A, syms, f'MAB{i}')
        here = []
        for k, (T, v, z) in syms.items():
            if k in consts:
                facts.append(valid(T, z))
                continue
            foralls.append(z)                                       # the value of a free input
            assume.append(valid(T, z))
            cands = [s for s in have if s[2] == T]
            sel = z3.BitVec(f'Msel{i}.{k}', 8)
            facts.append(z3.ULE(sel, len(cands)))
            term = z
            for j, (kind, name, _, src) in enumerate(cands):
                term = z3.If(sel == j, src, term)
                if kind == ():
                    used[name].append(sel == j)
            here.append((z, term))
        out = {k: z3.substitute(t, *here) for k, t in out.items()} if here else out
        box.calls = [(K, [z3.substitute(t, *here) for t in a], x) for K, a, x in box.calls]
        allbox.append(box)
        last = [((i,), k, L.strip_modifiers(T), out[k]) for k, T in fields(a_out)]
        have = have + last
    for k, us in used.items():
        facts.append(z3.PbEq([(u, 1) for u in us], 1) if us else z3.BoolVal(False))
    want = []
    for k, T in fields(i_out):
        cands = [s for s in last if s[2] == L.strip_modifiers(T)]
        if not cands:
            return False
        sel = z3.BitVec(f'Mout.{k}', 8)
        facts.append(z3.ULT(sel, len(cands)))
        want += [z3.Implies(sel == j, s[3] == iout[k]) for j, s in enumerate(cands)]
    for b in allbox:
        foralls += b.outs
    correct = z3.Implies(z3.And(*assume, boxes.consistent(*allbox)), z3.And(*want))
    return efsmt.solve(facts, [efsmt.Forall(foralls, correct)], limit=20000) is not None


# ---------------------------------------------------------------- executing a solution
def execute(ctx, ans, info, arch, op, n):
    from hwtypes import Bit, BitVector
    from lib import bbprogs, multiprogs as M
    from peak import family
    from peak.mapper.utils import Unbound
    f = family.PyXFamily()
    A, I = M.ARCH[arch], M.ir(arch, op)
    bbprogs.HANDLER = boxes.Function(ctx)
    a_in, i_in = dict(fields(A.Py.input_t)), dict(fields(I.Py.input_t))
    a_out, i_out = dict(fields(A.Py.output_t)), dict(fields(I.Py.output_t))
    consts = [k for k, T in L._sub(A.Py.input_t) if L.is_const(L.unwrap_modifier(T)[1])]

    def operand(name, T):
        return fam.Input(ctx, T, name).asm_value(f)
    env = {('IR_in', k): (T, operand(f'I.{k}', T)) for k, T in i_in.items()}
    used = []
    ans.check(len(info.in_bindings) == n and len(info.instrs) == n, f'{len(info.in_bindings)} instructions are reported')
    for i in range(n):
        args = {}
        for src, dst in info.in_bindings[i]:
            ans.check(dst[:2] == ('Arch_in', i) and dst[2] in a_in and dst[2] not in args and dst[2] not in consts, f'instruction {i} assigns {dst}')
            k = dst[2]
            if src is Unbound:
                args[k] = operand(f'A{i}.{k}', a_in[k])
                continue
            ans.check(src in env, f'instruction {i} reads {src}')
            T, v = env[src]
            ans.check(T == L.strip_modifiers(a_in[k]), f'{src} of type {T} is routed to {dst}')
            if src[0] == 'IR_in':
                used.append(src[1])
            args[k] = v
        ans.check(set(info.instrs[i]) == set(consts) and set(args) == set(a_in) - set(consts), f'instruction {i} assigns {sorted(args)}')
        for k in consts:
            T = L.strip_modifiers(a_in[k])
            v = info.instrs[i][k]
            ans.check(isinstance(v, Bit) if width(T) == 1 and not fam.is_adt(T) and not hasattr(T, 'size') else isinstance(v, BitVector) and v.size == width(T),
                      f'instruction {i} is reported as {type(v)}')
            if fam.is_adt(T):
                ans.check(valid(T, boxes.term(v)), f'instruction {i} is no encoding of an instruction')
                v = f.get_adt_t(T)(v)
            elif isinstance(v, BitVector):
                v = T(v)
            args[k] = v
        out = fam.as_tuple(A(f)()(**args))
        for (k, T), v in zip(a_out.items(), out):
            env['Arch_out', i, k] = L.strip_modifiers(T), v
    ans.check(sorted(used, key=str) == sorted(i_in, key=str), f'operands used: {used}')
    want = dict(zip(i_out, fam.as_tuple(I(f)()(**{k: env['IR_in', k][1] for k in i_in}))))
    ans.check(sorted((d for s, d in info.out_binding), key=str) == sorted((('IR_out', k) for k in i_out), key=str), f'results: {info.out_binding}')
    for src, dst in info.out_binding:
        ans.check(src in env and src[:2] == ('Arch_out', n - 1), f'the result {dst} is read from {src}')
        T, v = env[src]
        ans.check(T == L.strip_modifiers(i_out[dst[1]]), f'{src} of type {T} is reported as {dst}')
        ans.check(fam.eq(ctx, v, want[dst[1]], T), f'output {src} differs from {dst} of the operation')


def pair(arch, op, n):
    def scenario(ctx):
        real = ctx.choice('use_real', [True, False])
        ivar = ctx.choice('ivar', ['OneHot', 'Binary'])
        how = ctx.choice('how', ['any', 'loop'])
        want = exists(arch, op, n)
        what = f' ({arch}, {op}, {n} instructions, use_real={real}, {ivar}, {how})'
        solve = multi(arch, op, n, ivar, real)
        if solve is None:
            ctx.check(not want, 'refused although a solution exists' + what)
            return
        info, ans, reached = search(ctx, solve, how)
        if info is None:
            ctx.check(not reached or not want or how == 'any', 'a solution exists but none is found' + what)
            return
        ans.check(want, 'a solution is returned but none exists' + what)
        execute(ctx, ans, info, arch, op, n)
    return scenario


def index(kind, n):
    def scenario(ctx):
        from lib import efsmt
        from lib.ctx import pysmt_to_z3
        import peak.mapper.index_var as iv
        v = getattr(iv, kind)(n, 'ix')
        w = v.var.size
        code = ctx.raw('code', w)
        x = z3.BitVecVal(code, w) if isinstance(code, int) and type(code) is int else code.at(w)

        def at(c):
            return z3.substitute(pysmt_to_z3(c.value), (pysmt_to_z3(v.var.value), x))
        ok = at(v.is_valid())
        match = [at(v.match_index(i)) for i in range(n)]
        ctx.check(ok == z3.PbEq([(m, 1) for m in match], 1), f'{kind}[{n}]: a valid code matches exactly one index, another none')
        ctx.check(z3.Implies(z3.Not(ok), z3.Not(z3.Or(*match))), f'{kind}[{n}]: an invalid code matches an index')
        try:
            i = v.decode(code)
        except ValueError:
            ctx.check(z3.Not(ok), f'{kind}[{n}]: a valid code does not decode')
        else:
            ctx.check(type(i) is int and 0 <= i < n, f'{kind}[{n}]: decodes to {i}')
            ctx.check(z3.And(ok, match[i]), f'{kind}[{n}]: decodes to another index')
        for bad in (-1, n, n + 1):
            try:
                v.match_index(bad)
                ctx.fail(f'{kind}[{n}]: index {bad} is accepted')
            except ValueError:
                pass
    return scenario


def scenarios(tier, seed):
    for n, cs in CASES.items():
        for a, ops in cs.items():
            if n == 3 and tier == 'quick' and a != 'fan':
                continue
            for o in ops:
                yield Scenario(f'{n}/{a}/{o}', pair(a, o, n), budget_s=300 if tier == 'quick' else 3000)
    for kind in ('OneHot', 'Binary'):
        for n in list(range(1, 21 if tier == 'quick' else 41)):
            yield Scenario(f'index/{kind}/{n}', index(kind, n))
