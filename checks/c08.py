import functools

import hwtypes
from hwtypes import BitVector, Bit, SMTBit, SMTBitVector
from hwtypes.modifiers import strip_modifiers

from lib import fam, enc
from lib.runner import Scenario

META = dict(
    explanation='Each program is executed in the Python family (branches fork, all feasible paths), in the rewritten Python family and in the '
                'SMT family on shared symbolic inputs for the stated number of calls; every output of every call must be equal.',
    bounds='17 hand-written programs, 9 shipped example PEs, seeded random programs (48 quick, 400 thorough); all inputs (leaves '
           'at their declared 1..32 bits, opcodes at full width); stateful programs unrolled 3 calls (5 thorough)',
    assumptions=['division is excluded (the hwtypes families disagree on rounding of signed division)',
                 'padding bits of composite inputs are arbitrary but inputs are valid encodings'],
    level='other')


def fields(T):
    return list(T.field_dict.items()) if T is not None else []


def agree(ctx, fc, steps, families=('PyX', 'SMT'), skip=None):
    from peak import family as F
    famod = getattr(fc, 'family', F)
    Py = fc.Py
    fpy = famod.PyFamily()
    cls = {'Py': Py}
    if 'PyX' in families:
        cls['PyX'] = fc.PyX
    if 'SMT' in families:
        cls['SMT'] = fc.SMT
    in_t, out_t = Py.input_t, Py.output_t
    for k, C in cls.items():
        ctx.check(list(C.input_t.field_dict) == list(in_t.field_dict), f'{k}: input names differ')
        ctx.check(list(C.output_t.field_dict) == list(out_t.field_dict), f'{k}: output names differ')
        for a, b in ((C.input_t, in_t), (C.output_t, out_t)):
            for n, T in a.field_dict.items():
                ctx.check(fam.py_type(T) is fam.py_type(b.field_dict[n]), f'{k}: type of {n} differs')
    inst = {k: C() for k, C in cls.items()}
    outs = [fam.py_type(T) for T in out_t.field_dict.values()]
    for s in range(steps):
        ins = {n: fam.Input(ctx, T, f's{s}.{n}') for n, T in in_t.field_dict.items()}
        res = {}
        if skip is not None and skip(ctx, ins):
            return
        for k in inst:
            if k == 'Py':
                vals = {n: i.py() for n, i in ins.items()}
            elif k == 'PyX':
                vals = {n: i.asm_value(famod.PyXFamily()) for n, i in ins.items()}
            else:
                vals = {n: i.smt(famod.SMTFamily(), cls['SMT'].input_t.field_dict[n]) for n, i in ins.items()}
            # positional and keyword calls must agree; alternate between them
            res[k] = inst[k](**vals) if s % 2 else inst[k](*vals.values())
        base = fam.as_tuple(res['Py'])
        ctx.check(len(base) == len(outs), 'number of outputs')
        for k in inst:
            if k == 'Py':
                continue
            got = fam.as_tuple(res[k])
            ctx.check(len(got) == len(outs), f'{k}: number of outputs')
            for n, T, x, y in zip(out_t.field_dict, outs, base, got):
                want = {'PyX': (BitVector, Bit), 'SMT': (SMTBitVector, SMTBit)}[k]
                b = fam.bits(y)
                ctx.check(isinstance(b, want), f'{k}: output {n} is a {type(b).__name__}')
                ctx.check(fam.eq(ctx, x, y, T), f'{k}: output {n} of call {s} differs from the Python family')


def example(ctx, mod, get, families, steps=1):
    import importlib
    m = importlib.import_module(mod)
    skip = None
    if mod == 'examples.sum_pe.sim' and ctx.known('K2'):
        # the Python family raises for every ArithOp instruction of this example: recorded, everything else is still checked
        isa = m.ISA_fc.Py

        def skip(ctx, ins):
            if ins['inst'].py()[isa.ArithOp].match:
                ctx.check(True, 'recorded finding')
                return True
    agree(ctx, get(m), steps, families, skip)


EXAMPLES = {
    'sum_pe': ('examples.sum_pe.sim', lambda m: m.PE_fc, ('PyX', 'SMT')),
    'tagged_pe': ('examples.tagged_pe.sim', lambda m: m.PE_fc, ('PyX', 'SMT')),
    'pe6': ('examples.demo_pes.pe6.sim', lambda m: m.PE_fc, ('PyX', 'SMT')),
    'PE_lut8': ('examples.PE_lut.sim', lambda m: m.gen_PE(8), ('PyX', 'SMT')),
    'PE_lut16': ('examples.PE_lut.sim', lambda m: m.gen_PE(16), ('PyX', 'SMT')),
    'fp_pe.alu': ('examples.fp_pe.sim', lambda m: m.ALU_fc, ('PyX', 'SMT')),
    'smallir.Nand': ('examples.smallir.ir', lambda m: m.gen_SmallIR(8).instructions['Nand'], ('PyX', 'SMT')),
    'smallir.Shftr': ('examples.smallir.ir', lambda m: m.gen_SmallIR(8).instructions['Shftr'], ('PyX', 'SMT')),
}


def corpus(ctx, name, steps):
    from lib import programs
    fc, _ = programs.CORPUS[name]
    agree(ctx, fc, steps)


def rnd(ctx, seed, n, stateful, name, steps):
    from lib import programs
    fc = programs.random_programs(seed, n, stateful)[name]
    agree(ctx, fc, steps)


def scenarios(tier, seed):
    out = []
    more = tier != 'quick'
    from lib.programs_list import CORPUS_STEPS
    for k, steps in CORPUS_STEPS.items():
        out.append(Scenario(k, functools.partial(corpus, name=k, steps=steps if steps == 1 else (5 if more else 3)), max_paths=20000))
    for k, (mod, get, fams) in EXAMPLES.items():
        out.append(Scenario('example/' + k, functools.partial(example, mod=mod, get=get, families=fams)))
    n = 200 if more else 24
    for i in range(n):
        out.append(Scenario(f'random/c{i}', functools.partial(rnd, seed=seed, n=n, stateful=False, name=f'rpc{i}', steps=1), max_paths=20000))
        out.append(Scenario(f'random/s{i}', functools.partial(rnd, seed=seed, n=n, stateful=True, name=f'rps{i}', steps=2), max_paths=20000))
    return out
