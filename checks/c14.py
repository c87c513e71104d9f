import functools
import importlib
import os
import tempfile

import hwtypes
import z3
from hwtypes import BitVector, Bit

from lib import fam, symex
from lib.ctx import z3_of, CheckFailed
from lib.runner import Scenario

META = dict(
    explanation='Each program is compiled by the real Magma family to a CoreIR netlist, which is turned into SMT terms; the Python model '
                'runs symbolically on the same inputs. Every output of every cycle must be equal on every path, from reset, for the stated '
                'number of cycles, with a reset at an arbitrary cycle. A counterexample is replayed in verilator. For wrapped circuits the '
                'wrapper is fed the opcode and compared with the Python model on the decoded instruction.',
    bounds='15 hand-written programs inside magma\'s operator set, 3 shipped example PEs, seeded random programs (32 quick, 300 thorough); '
           'data 1..16 bits, opcodes at full width; stateful programs 3 cycles (5 thorough) plus a reset before any one cycle',
    assumptions=['magma and coreir (dependencies) implement their primitives as documented; registers power up only through reset',
                 'composite registers and renamed output ports are refused by the installed magma and are excluded'],
    level='other', trusted=['meaning given to CoreIR primitives in lib/rtl.py (counterexamples are confirmed in verilator)'])


def leaf_bits(v):
    """one plain bit vector term (or BV value) for a port"""
    b = fam.bits(v)
    if isinstance(b, Bit):
        b = BitVector[1](b)
    return b


def circuit_agrees(ctx, fc, steps, resets=True, wrap=None):
    from lib import rtl
    Py, M = fc.Py, fc.Magma
    in_t, out_t = Py.input_t, Py.output_t
    circ = M
    if wrap is not None:
        circ = wrap(Py, M)
    ports = [p for p in circ.interface.ports if p not in ('CLK', 'ASYNCRESET')]
    ins = list(in_t.field_dict)
    onames = ports[len(ins):]
    ctx.check(ports[:len(ins)] == ins, f'input ports {ports} instead of {ins}')
    ctx.check(len(onames) == len(out_t.field_dict), f'output ports {onames} for results {list(out_t.field_dict)}')
    outs = [fam.py_type(T) for T in out_t.field_dict.values()]
    if ctx.symbolic:
        R = rtl.compile_circuit(circ, 'circ')
        state = R.initial()
        clocked = bool(state)
        for n in ins:
            w = rtl._size(R.ports[n])
            T = fam.py_type(in_t.field_dict[n])
            want = fam.Assembler_width(T)
            ctx.check(w == want, f'port {n} is {w} bits wide, the Python model takes {want}')
    else:
        clocked = any('ASYNCRESET' == p for p in circ.interface.ports)
    trace = []
    inst = Py()
    # a reset may come before any cycle: which one is explored
    when = ctx.choice('reset', range(-1, steps)) if resets and steps > 1 else -1
    for s in range(steps):
        reset = s == 0 or s == when
        if s and s == when:
            inst = Py()
            if ctx.symbolic:
                state = R.initial()
        vals = {n: fam.Input(ctx, T, f's{s}.{n}') for n, T in in_t.field_dict.items()}
        res = fam.as_tuple(inst(**{n: i.py() for n, i in vals.items()}))
        bits = [leaf_bits(r) for r in res]
        if ctx.symbolic:
            terms = {}
            for n, i in vals.items():
                if fam.is_adt(i.T):
                    t = z3_of(i.op)
                else:
                    v = i.py()
                    t = z3.If(z3_of(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isinstance(v, Bit) else z3_of(v)
                terms[n] = t
            if 'CLK' in R.ports:
                terms['CLK'] = z3.BitVecVal(0, 1)
            if 'ASYNCRESET' in R.ports:
                terms['ASYNCRESET'] = z3.BitVecVal(0, 1)
            o, state = R.step(terms, state)
            for n, b, T in zip(onames, bits, outs):
                zb = z3_of(b)
                ctx.check(o[n].size() == zb.size(), f'port {n} is {o[n].size()} bits wide instead of {zb.size()}')
                ctx.check(o[n] == zb, f'port {n} in cycle {s} differs from the Python model')
        else:
            trace.append(({n: (i.op if fam.is_adt(i.T) else i.py().as_uint() if isinstance(i.py(), BitVector) else int(i.py()))
                           for n, i in vals.items()},
                          dict(zip(onames, [b.as_uint() for b in bits])), reset))
    if not ctx.symbolic:
        from lib import rtl
        here = os.getcwd()
        with tempfile.TemporaryDirectory(dir=here) as d:
            os.chdir(d)
            try:
                R = rtl.compile_circuit(circ, 'circ')
                for n in ins:
                    ctx.check(rtl._size(R.ports[n]) == fam.Assembler_width(fam.py_type(in_t.field_dict[n])), f'width of port {n}')
                for n, T in zip(onames, outs):
                    ctx.check(rtl._size(R.ports[n]) == fam.Assembler_width(T), f'width of port {n}')
                err = rtl.simulate(circ, trace, clocked)
            finally:
                os.chdir(here)
        if err is not None:
            raise CheckFailed('verilator disagrees with the Python model: ' + err)


def corpus(ctx, name, steps):
    from lib import programs, hwprograms
    fc, _ = (hwprograms.HW if name.startswith('hw/') else programs.CORPUS)[name.split('/')[-1]]
    circuit_agrees(ctx, fc, steps)


def example(ctx, mod, get):
    circuit_agrees(ctx, get(importlib.import_module(mod)), 1)


def rnd(ctx, seed, n, stateful, name, steps):
    from lib import programs
    fc = programs.random_programs(seed, n, stateful, True)[name]
    circuit_agrees(ctx, fc, steps)


class HashableDict(dict):
    def __hash__(self):
        return hash(tuple(sorted(self)))


def wrapped(ctx, name):
    """the wrapper takes the raw opcode"""
    from lib import programs, hwprograms
    from peak import wrap_with_disassembler
    from peak.assembler import Assembler
    fc, _ = (hwprograms.HW if name.startswith('hw/') else programs.CORPUS)[name.split('/')[-1]]

    def wrap(Py, M):
        T = Py.input_t.field_dict['inst']
        T = fam.py_type(T)
        asm = Assembler(T)
        return wrap_with_disassembler(M, asm.disassemble, asm.width, HashableDict(asm.layout), type(M.interface.ports['inst']),
                                      wrapped_name='W' + name.split('/')[-1])
    circuit_agrees(ctx, fc, 1, wrap=wrap)


PROGS = ['alu', 'nested', 'sum', 'signed', 'counter', 'pipe', 'regpe', 'build', 'swap', 'hier', 'hw/early', 'hw/union', 'hw/ops', 'hw/attr',
         'hw/hold', 'hw/signedreg', 'hw/sub', 'hw/two', 'hw/wrapped']
STATE = {'counter', 'pipe', 'regpe', 'hier', 'hw/attr', 'hw/hold', 'hw/signedreg', 'hw/two'}
EXAMPLES = {
    'pe6': ('examples.demo_pes.pe6.sim', lambda m: m.PE_fc),
    'PE_lut8': ('examples.PE_lut.sim', lambda m: m.gen_PE(8)),
    'fp_pe.alu': ('examples.fp_pe.sim', lambda m: m.ALU_fc),
}


def scenarios(tier, seed):
    more = tier != 'quick'
    out = []
    for p in PROGS:
        out.append(Scenario(p, functools.partial(corpus, name=p, steps=(5 if more else 3) if p in STATE else 1)))
    for k, (mod, get) in EXAMPLES.items():
        out.append(Scenario('example/' + k, functools.partial(example, mod=mod, get=get)))
    for p in ('alu', 'nested', 'hw/wrapped'):
        out.append(Scenario('wrap/' + p, functools.partial(wrapped, name=p)))
    n = 150 if more else 16
    for i in range(n):
        out.append(Scenario(f'random/c{i}', functools.partial(rnd, seed=seed, n=n, stateful=False, name=f'rpc{i}', steps=1)))
        out.append(Scenario(f'random/s{i}', functools.partial(rnd, seed=seed, n=n, stateful=True, name=f'rps{i}', steps=3 if more else 2)))
    return out
