import functools

from lib.runner import Scenario

META = dict(
    explanation='hwtypes.FPVector is replaced by a stand-in whose operations are arbitrary functions of (format, rounding mode, '
                'operand codes); every component peak.float generates is executed on symbolic operands - and, in the rewritten '
                'Python family, on a symbolic rounding mode, so every branch is taken at once - and its result compared with the '
                'operation applied directly at the mode the instruction names. In the symbolic family, where these components are '
                'black boxes, the operands they record and the results they return are compared with those given. Rounding mode '
                'conversions are composed in every order on symbolic codes.',
    bounds='all operations of the library x 5 modes x formats (3,4), (4,3), (3,4,ieee), (8,7) (and (5,10), (2,3,ieee) thorough); '
           'operands are arbitrary bit vectors; the arithmetic itself (gmpy2) and the Magma family (constant RNE add and '
           'multiply only) are outside',
    level='other')

MODES = {'RNE': 'RNE', 'RTZ': 'RTZ', 'RDN': 'RTN', 'RUP': 'RTP', 'RMM': 'RNA'}     # RISC-V name -> IEEE name in hwtypes


def modes():
    from hwtypes.fp_vector_abc import RoundingMode as H
    from peak.float import RoundingMode as R
    return {r: (getattr(R, r), getattr(H, h)) for r, h in MODES.items()}


def expected(FP, fmt, mode, op, ins):
    """the operation at the mode, once, on the operands in order"""
    T = FP[fmt[0], fmt[1], mode, fmt[2]]
    vs = [T.reinterpret_from_bv(i) for i in ins]
    r = getattr(vs[0], 'fp_' + op)(*vs[1:])
    return r if op_is_bit(op) else r.reinterpret_as_bv()


def op_is_bit(op):
    from lib.floats import BITS
    return op in BITS


def attr(op):
    return op.capitalize() + '_fc'


def lib_of(fmt):
    from peak.float import float_lib_gen
    return float_lib_gen(*fmt) if fmt[2] else float_lib_gen(*fmt[:2])


def operands(ctx, fmt, op, tag=''):
    from lib.floats import ARITY
    return [ctx.bv(f'{tag}in{i}', 1 + fmt[0] + fmt[1]) for i in range(ARITY[op])]


def family(name):
    from peak import family as F
    return getattr(F, name)()


def variable(ctx, op, famname, fmts):
    """the mode is an input"""
    from hwtypes import Bit, BitVector
    from lib import fam, floats
    t = floats.Table(ctx)
    FP = floats.install(t)
    f = family(famname)
    ms = modes()
    fmt = ctx.choice('format', fmts)
    for again in fmts:               # other formats are generated first and must not interfere
        getattr(lib_of(again), attr(op))(f)
    C = getattr(lib_of(fmt), attr(op))(f)
    ins = operands(ctx, fmt, op)
    from peak.float import RoundingMode as R
    if famname == 'PyFamily':
        name = ctx.choice('rm', list(ms))
        got = C()(ms[name][0], *ins)
        want = {name: expected(FP, fmt, ms[name][1], op, ins)}
        conds = {name: True}
    else:
        rm = fam.Input(ctx, R, 'rm')
        v = rm.asm_value(f)
        got = C()(v, *ins)
        want = {n: expected(FP, fmt, h, op, ins) for n, (r, h) in ms.items()}
        conds = {n: v == f.get_adt_t(R)(r) for n, (r, h) in ms.items()}
        ctx.check(ctx.any(*conds.values()), 'every valid code is one of the five modes')
    ctx.check(type(got) is (Bit if op_is_bit(op) else BitVector[1 + fmt[0] + fmt[1]]), f'result type {type(got)}')
    for n in want:
        ctx.check(ctx.implies(conds[n], ctx.same_value(got, want[n])), f'{op} at {n} computed something else ({famname}, {fmt})')


def fixed(ctx, op, famname, fmts):
    """the mode is a parameter of the component"""
    from hwtypes import Bit, BitVector
    from lib import floats
    t = floats.Table(ctx)
    FP = floats.install(t)
    f = family(famname)
    ms = modes()
    fmt = ctx.choice('format', fmts)
    for again in fmts:
        for n in ms:
            getattr(lib_of(again).const_rm(ms[n][0]), attr(op))(f)
    name = ctx.choice('rm', list(ms))
    C = getattr(lib_of(fmt).const_rm(ms[name][0]), attr(op))(f)
    ins = operands(ctx, fmt, op)
    got = C()(*ins)
    ctx.check(type(got) is (Bit if op_is_bit(op) else BitVector[1 + fmt[0] + fmt[1]]), f'result type {type(got)}')
    ctx.check(ctx.same_value(got, expected(FP, fmt, ms[name][1], op, ins)), f'{op} fixed at {name} computed something else ({famname}, {fmt})')


def symbolic(ctx, op, const, fmt):
    """black box in the symbolic family: what it is given is what it records, what it is set to is what it returns"""
    from hwtypes import SMTBit
    from lib import boxes, fam, floats
    from peak.black_box import BlackBox
    from peak.float import RoundingMode as R
    f = family('SMTFamily')
    ms = modes()
    w = 1 + fmt[0] + fmt[1]
    L = lib_of(fmt)
    ins = [ctx.smt_bv(f'in{i}', w) for i in range(floats.ARITY[op])]
    A = f.get_adt_t(R)
    if const:
        name = ctx.choice('rm', list(ms))
        obj = getattr(L.const_rm(ms[name][0]), attr(op))(f)()
        args = list(ins)
        rm = A(ms[name][0])
    else:
        obj = getattr(L, attr(op))(f)()
        rm = fam.Input(ctx, R, 'rm').smt(f, A)
        args = [rm] + ins
    found = boxes.walk(obj)
    ctx.check(len(found) == 1, f'{len(found)} black boxes')
    (b,) = found.values()
    out = ctx.smt_bit('out') if op_is_bit(op) else ctx.smt_bv('out', w)
    b._set_outputs(out)
    got = obj(*args)
    ctx.check(type(got) is type(out) and boxes.term(got) == boxes.term(out), 'the result is not the one of the box')
    rec = b._get_inputs()
    want = args if b is obj else [rm] + ins
    ctx.check(len(rec) == len(want), f'{len(rec)} recorded operands')
    for i, (x, y) in enumerate(zip(rec, want)):
        ctx.check(boxes.term(x) == boxes.term(y), f'recorded operand {i} of {op} is another value')


def conversions(ctx, famname):
    from lib import fam
    from peak.float import RoundingMode as R, RoudningMode_utils
    from hwtypes.fp_vector_abc import RoundingMode as H
    f = family(famname)
    u = RoudningMode_utils(f)
    ms = modes()
    for n, (r, h) in ms.items():
        ctx.check(u.RM_to_RM_hwtypes(r) is h, f'library mode of {n}')
        ctx.check(u.RM_hwtypes_to_RM(h) == r, f'mode of library {h}')
    ctx.check(set(h for _, h in ms.values()) == set(H), 'all library modes')
    in3 = ctx.smt_bv('code', 3) if famname == 'SMTFamily' else ctx.bv('code', 3)
    rm = fam.Input(ctx, R, 'rm')
    if famname == 'PyFamily':
        v = ctx.choice('mode', list(R.enumerate()))
    elif famname == 'PyXFamily':
        v = rm.asm_value(f)
    else:
        v = rm.smt(f, f.get_adt_t(R))
    T = f.BitVector[3]
    code = u.from_rm(v)
    ctx.check(type(code) is T, f'type of a code: {type(code)}')
    same = (lambda a, b: ctx.same(a, b)) if famname == 'SMTFamily' else ctx.same_value
    back = u.to_rm(code)
    ctx.check(same(fam.bits(back), fam.bits(v)), 'to_rm(from_rm(mode)) is another mode')
    # codes are the RISC-V ones
    for n, (r, h) in ms.items():
        k = list(MODES).index(n)
        c = same(fam.bits(v), fam.bits(f.get_constructor(R)(r)))
        ctx.check(ctx.implies(c, same(code, T(k))), f'code of {n}')
        ctx.check(ctx.implies(same(in3, T(k)), same(fam.bits(u.to_rm(in3)), fam.bits(f.get_constructor(R)(r)))), f'mode of code {k}')
    valid = ctx.any(*[same(in3, T(k)) for k in range(5)])
    ctx.check(ctx.implies(valid, same(u.from_rm(u.to_rm(in3)), in3)), 'from_rm(to_rm(code)) is another code')


def interface(ctx):
    from lib import floats
    for fmt in ((3, 4, False), (8, 7, False)):
        L = lib_of(fmt)
        ctx.check(lib_of(fmt) is L, 'one library per format')
        for op in floats.NAMES:
            ctx.check(hasattr(L, attr(op)), f'{op} is missing')
            for n, (r, h) in modes().items():
                ctx.check(hasattr(L.const_rm(r), attr(op)), f'{op} at {n} is missing')
                ctx.check(L.const_rm(r) is L.const_rm(r), 'one library per mode')


def scenarios(tier, seed):
    from lib.floats import NAMES
    fmts = [(3, 4, False), (4, 3, False), (3, 4, True), (8, 7, False)]
    if tier != 'quick':
        fmts += [(5, 10, False), (2, 3, True)]
    out = [Scenario('interface', interface)]
    for f in ('PyFamily', 'PyXFamily', 'SMTFamily'):
        out.append(Scenario(f'conversions/{f}', functools.partial(conversions, famname=f)))
    for op in NAMES:
        for f in ('PyFamily', 'PyXFamily'):
            out.append(Scenario(f'mode/{op}/{f}', functools.partial(variable, op=op, famname=f, fmts=fmts)))
            out.append(Scenario(f'fixed/{op}/{f}', functools.partial(fixed, op=op, famname=f, fmts=fmts)))
        for fmt in fmts[::3]:
            for c in (False, True):
                out.append(Scenario(f'box/{op}/{fmt[0]}.{fmt[1]}/{"fixed" if c else "mode"}', functools.partial(symbolic, op=op, const=c, fmt=fmt)))
    return out
