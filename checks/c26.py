import functools

import hwtypes
import z3
from hwtypes import BitVector, Bit, SIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from lib import fam
from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='Instructions with symbolically chosen interfaces are added to an IR and called on symbolic operands in every family; '
                'the function receives the requested family and the operands in order and its results come back unchanged; earlier '
                'instructions stay as they were.',
    bounds='1-4 inputs and outputs over 10 types (some of one name) (first two of each chosen freely), 5 sets of names, Py, PyX and SMT; histories of '
           '3 additions (4 thorough) with 4 names; the instructions of the shipped SmallIR at widths 3, 4 and 8; circuits not covered',
    level='other')


class Mode(Enum):
    A = 0
    B = 1
    C = 6


def twin(cls):
    """another type of the same name"""
    if issubclass(cls, Enum):
        class Mode(Enum):
            A = 3
            B = 4
            C = 1
            D = 2
        return Mode

    class Pt(Product):
        m = Mode0
        x = BitVector[3]
    return Pt


class Pt(Product):
    x = BitVector[3]
    m = Mode


class U(TaggedUnion):
    p = Pt
    v = BitVector[4]


Mode0 = Mode
TYPES = [BitVector[4], Bit, BitVector[5], SIntVector[4], Mode, Pt, U, Tuple[Bit, Mode], twin(Mode), twin(Pt)]
NAMES = {
    'plain': (['a', 'b', 'c', 'd'], ['x', 'y', 'z', 'w']),
    'swapped': (['d', 'c', 'b', 'a'], ['b', 'a', 'z', 'd']),
    'inner': (['family', 'fun', 't0', '_t1'], ['family', 't0', 'out', 'peak_fc']),
    'outer': (['Peak', 'inputs', 'name_outputs', 'name'], ['Peak', 'name_outputs', 'fun', 'a']),
    'long': (['in10', 'in2', 'In1', '_in'], ['O1', 'o1', 'o10', 'o2']),
}


def families():
    from peak import family as F
    return {'Py': F.PyFamily(), 'PyX': F.PyXFamily(), 'SMT': F.SMTFamily()}


def value(ctx, fk, family, T, name):
    """a symbolic value of T as the family's components take it"""
    name = f'{name}.{TYPES.index(T)}'
    if fk != 'SMT':
        return py_value(ctx, T, name)
    if fam.is_adt(T):
        return family.get_adt_t(T)(ctx.smt_bv(name, fam.Assembler_width(T)))
    return ctx.smt_bit(name) if T is Bit else ctx.smt_bv(name, T.size, fam.leaf_in(T, family.BitVector.get_family()).unsized_t)


def py_value(ctx, T, name):
    """every leaf is symbolic, enumerated leaves and variants depend on the position alone"""
    if issubclass(T, Enum):
        return list(T.enumerate())[sum(map(ord, name)) % len(list(T.enumerate()))]
    if issubclass(T, TaggedUnion):
        k = list(T.field_dict)[sum(map(ord, name)) % len(T.field_dict)]
        return T(**{k: py_value(ctx, T.field_dict[k], f'{name}.{k}')})
    if fam.is_adt(T):
        return T(*[py_value(ctx, t, f'{name}.{k}') for k, t in T.field_dict.items()])
    return T(ctx.rawbool(name)) if T is Bit else T(ctx.raw(name, T.size))


def same(ctx, a, b, T):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return fam.eq(ctx, a, b, T)


def check_component(ctx, fc, cls_name, ins, outs, fun_log, tag, result_names):
    """fc is the closure of an instruction with the given interface whose function logs its arguments and returns what fun_log['give'] says"""
    for fk, family in families().items():
        C = fc(family)
        ctx.check(C is fc(family), f'{tag}/{fk}: another class on a second request')
        ctx.check(C.__name__ == cls_name, f'{tag}/{fk}: class is called {C.__name__}')
        ctx.check(list(C.input_t.field_dict) == [n for n, _ in ins], f'{tag}/{fk}: inputs {list(C.input_t.field_dict)}')
        ctx.check(list(C.output_t.field_dict) == [n for n, _ in outs], f'{tag}/{fk}: outputs {list(C.output_t.field_dict)}')
        for side, want in ((C.input_t, ins), (C.output_t, outs)):
            for n, T in want:
                ctx.check(side.field_dict[n] is T, f'{tag}/{fk}: type of {n} is {side.field_dict[n]}')
        ops = [value(ctx, fk, family, T, f'{fk}.i{i}') for i, (_, T) in enumerate(ins)]
        res = tuple(value(ctx, fk, family, T, f'{fk}.o{i}') for i, (_, T) in enumerate(outs))
        give = res if len(outs) > 1 else res[0]
        for style in ('positional', 'named', 'mixed'):
            fun_log['calls'] = []
            fun_log['give'] = give
            if style == 'positional':
                got = C()(*ops)
            elif style == 'named':
                got = C()(**{n: v for (n, _), v in reversed(list(zip(ins, ops)))})
            else:
                got = C()(ops[0], **{n: v for (n, _), v in zip(ins[1:], ops[1:])})
            ctx.check(len(fun_log['calls']) == 1, f'{tag}/{fk}/{style}: the function was called {len(fun_log["calls"])} times')
            f, args = fun_log['calls'][0]
            ctx.check(f == family and type(f) is type(family), f'{tag}/{fk}/{style}: the function received the family {f}')
            ctx.check(len(args) == len(ops), f'{tag}/{fk}/{style}: {len(args)} operands')
            for (n, T), a, v in zip(ins, args, ops):
                ctx.check(same(ctx, a, v, T), f'{tag}/{fk}/{style}: operand {n}')
            got = got if len(outs) > 1 else (got,)
            ctx.check(isinstance(got, tuple) and len(got) == len(outs), f'{tag}/{fk}/{style}: {len(got)} results')
            for (n, T), a, v in zip(outs, got, res):
                ctx.check(same(ctx, a, v, T), f'{tag}/{fk}/{style}: result {n}')


def logger(log):
    def fun(family, *args):
        log['calls'].append((family, args))
        return log['give']
    return fun


def interface(ctx, names, pre, n):
    ts = []
    for i in range(n):
        ts.append(TYPES[ctx.choice(f'{pre}{i}', range(len(TYPES)))] if i < 2 else TYPES[(0, 5)[i - 2]])
    return list(zip(names[:n], ts))


def prod(name, fields):
    return Product.from_fields(name, dict(fields))


def single(ctx, nin, nout, names):
    from peak.ir import IR
    nm = NAMES[names]
    if names == 'plain':
        ins, outs = interface(ctx, nm[0], 'i', nin), interface(ctx, nm[1], 'o', nout)
    else:
        k = ctx.choice('k', range(len(TYPES)))
        ins = [(n, TYPES[(k + i) % len(TYPES)]) for i, n in enumerate(nm[0][:nin])]
        outs = [(n, TYPES[(k + 3 * i + 1) % len(TYPES)]) for i, n in enumerate(nm[1][:nout])]
    I, O = prod('In', ins), prod('Out', outs)
    log = {}
    ir = IR()
    ir.add_peak_instruction('Op', I, O, logger(log))
    ctx.check(list(ir.instructions) == ['Op'], 'instructions of the IR')
    check_component(ctx, ir.instructions['Op'], 'Op', ins, outs, log, 'Op', None)
    ctx.check(list(I.field_dict.items()) == ins and list(O.field_dict.items()) == outs, 'the interface was changed')


IFACES = [([('a', BitVector[4]), ('b', Bit)], [('x', Bit)]),
          ([('b', Bit), ('a', BitVector[4])], [('x', BitVector[4]), ('y', Pt)]),
          ([('p', Pt)], [('b', Mode), ('a', Mode), ('c', SIntVector[4])])]


def history(ctx, steps, first):
    """additions under new and used names; nothing earlier changes"""
    from peak.ir import IR
    from peak import family_closure, Peak
    irs = [IR(), IR()]
    model = [{}, {}]
    names = [('A', None), ('B', None), ('a.16', 'A'), ('A', 'Other')]

    @family_closure
    def own_fc(family):
        @family.assemble(locals(), globals())
        class Own(Peak):
            def __call__(self, q: Bit) -> Bit:
                return q
        return Own

    for s in range(steps):
        k = ctx.choice(f's{s}.ir', (0, 1)) if s else 0
        op = ctx.choice(f's{s}.op', ['peak', 'closure']) if s else first
        nm, cls = names[ctx.choice(f's{s}.n', range(len(names)))]
        f = ctx.choice(f's{s}.f', range(len(IFACES)))
        ins, outs = IFACES[f]
        log = {}
        before = dict(irs[k].instructions)
        try:
            if op == 'peak':
                I, O = prod('In', ins), prod('Out', outs)
                irs[k].add_peak_instruction(nm, I, O, logger(log), *([] if cls is None else [cls] if s % 2 else []),
                                            **({'cls_name': cls} if cls is not None and not s % 2 else {}))
            else:
                irs[k].add_instruction(nm, own_fc)
        except ValueError:
            ctx.check(nm in model[k], f'step {s}: refused the unused name {nm}')
            ctx.check(list(irs[k].instructions.items()) == list(before.items()), f'step {s}: refused addition changed the IR')
        else:
            ctx.check(nm not in model[k], f'step {s}: name {nm} was used twice')
            model[k][nm] = (irs[k].instructions[nm], None if op == 'closure' else (cls or nm, ins, outs, log))
        for j in (0, 1):
            ctx.check(list(irs[j].instructions) == list(model[j]), f'step {s}: instructions {list(irs[j].instructions)} of IR {j}')
            for n, (fc, spec) in model[j].items():
                ctx.check(irs[j].instructions[n] is fc, f'step {s}: instruction {n} of IR {j} was replaced')
                if spec is None:
                    ctx.check(fc is own_fc, f'step {s}: instruction {n} is not the one given')
    for j in (0, 1):
        for n, (fc, spec) in model[j].items():
            if spec is not None:
                check_component(ctx, fc, *spec, f'ir {j}/{n}', None)


SMALL = {
    'Add': lambda x, y, w: x + y, 'Sub': lambda x, y, w: x - y, 'And': lambda x, y, w: x & y, 'Nand': lambda x, y, w: ~(x & y),
    'Or': lambda x, y, w: x | y, 'Nor': lambda x, y, w: ~(x | y), 'Mul': lambda x, y, w: x * y,
    'Shftr': lambda x, y, w: z3.LShR(x, y), 'Shftl': lambda x, y, w: x << y, 'Not': lambda x, w: ~x, 'Neg': lambda x, w: -x,
}


def small(ctx, width):
    """the IR shipped with peak, all instructions in one dictionary"""
    from examples.smallir import gen_SmallIR
    ir = gen_SmallIR(width)
    for n, fc in ir.instructions.items():
        if n not in SMALL:
            continue
        for fk, family in families().items():
            C = fc(family)
            ops = []
            for i, T in enumerate(C.input_t.field_dict.values()):
                ops.append(ctx.smt_bv(f'x{i}', width) if fk == 'SMT' else ctx.bv(f'x{i}', width))
            got = C()(*ops)
            ctx.check(z3_of(got) == SMALL[n](*[z3_of(v) for v in ops], width), f'{fk}/{n} at width {width}')
    ctx.check(set(SMALL) <= set(ir.instructions), 'an instruction is missing')


def body_programs():
    """functions of several operations, sharing one interface"""
    def ite(f, a, b, c):
        return c.ite(a, b)

    def sub(f, a, b, c):
        return a - b

    def konst(f, a, b, c):
        return f.BitVector[4](11) ^ (b << f.BitVector[4](1))

    def late(f, *args):
        a, b, c = args
        return f.Bit(1).ite(b, a)
    spec = [('ite', ite, lambda a, b, c: z3.If(c, a, b)), ('sub', sub, lambda a, b, c: a - b),
            ('konst', konst, lambda a, b, c: z3.BitVecVal(11, 4) ^ (b << 1)), ('late', late, lambda a, b, c: b)]
    return spec


def bodies(ctx, order):
    """several instructions added in a loop over one interface: each keeps its own function"""
    from peak.ir import IR
    spec = body_programs()
    if order == 'reverse':
        spec = spec[::-1]
    ir = IR()
    I = Product.from_fields('I', {'a': BitVector[4], 'b': BitVector[4], 'c': Bit})
    O = Product.from_fields('O', {'out': BitVector[4]})
    for n, f, _ in spec:
        ir.add_peak_instruction(n, I, O, f, **({'cls_name': 'Same'} if order == 'samename' else {}))
    for fk, family in families().items():
        smt = fk == 'SMT'
        a, b, c = (ctx.smt_bv('a', 4), ctx.smt_bv('b', 4), ctx.smt_bit('c')) if smt else (ctx.bv('a', 4), ctx.bv('b', 4), ctx.bit('c'))
        for n, _, want in spec:
            C = ir.instructions[n](family)
            got = C()(a, b, c)
            ctx.check(type(got) is family.BitVector[4], f'{fk}/{n}: result is a {type(got).__name__}')
            ctx.check(z3_of(got) == want(z3_of(a), z3_of(b), z3_of(c)), f'{fk}/{n}: wrong result')


def scenarios(tier, seed):
    out = []
    for nin in (1, 2, 3, 4):
        for nout in (1, 2, 3, 4):
            for names in NAMES:
                if names == 'plain' and tier == 'quick' and nin > 2 and nout > 2:
                    continue
                out.append(Scenario(f'single/{nin}/{nout}/{names}', functools.partial(single, nin=nin, nout=nout, names=names), budget_s=600))
    for first in ('peak', 'closure'):
        out.append(Scenario(f'history/{first}', functools.partial(history, steps=3 if tier == 'quick' else 4, first=first), budget_s=800,
                            max_paths=300000))
    for w in (3, 4, 8) if tier == 'quick' else (3, 4, 8, 16):
        out.append(Scenario(f'small/{w}', functools.partial(small, width=w)))
    for o in ('given', 'reverse', 'samename'):
        out.append(Scenario(f'bodies/{o}', functools.partial(bodies, order=o)))
    return out
