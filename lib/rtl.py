"""Generated circuits as SMT terms: the CoreIR netlist magma emits for a program, evaluated symbolically.

The netlist is produced by the real code (peak's Magma family, magma, coreir) on every run; only
the primitives of CoreIR's standard library are given meaning here.  In a concrete replay the
circuit is instead emitted as Verilog and simulated with verilator.
"""
import json
import os

import z3

from . import symex

U = 'width'


class Unsupported(symex.EngineError):
    pass


def _size(T):
    if isinstance(T, str):
        return 1
    if T[0] == 'Array':
        return T[1] * _size(T[2])
    if T[0] == 'Record':
        return sum(_size(t) for _, t in T[1])
    if T[0] == 'Named':
        return 1
    raise Unsupported(f'type {T}')


def _is_input(T):
    if isinstance(T, str):
        return T == 'BitIn'
    if T[0] == 'Array':
        return _is_input(T[2])
    if T[0] == 'Named':
        return T[1].endswith('In')
    if T[0] == 'Record':
        return all(_is_input(t) for _, t in T[1])
    raise Unsupported(f'type {T}')


def _walk(T, path):
    """(offset, length) of the sub-object at path inside the flattened T"""
    off = 0
    for s in path:
        if T[0] == 'Array':
            e = _size(T[2])
            if ':' in s:
                lo, hi = map(int, s.split(':'))
                off += lo * e
                T = ['Array', hi - lo, T[2]]
            else:
                off += int(s) * e
                T = T[2]
        elif T[0] == 'Record':
            for n, t in T[1]:
                if n == s:
                    T = t
                    break
                off += _size(t)
            else:
                raise Unsupported(f'no field {s}')
        else:
            raise Unsupported(f'cannot select {s} in {T}')
    return off, _size(T)


def _arr(n, d):
    return ['Array', n, d]


BIN = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b,
    'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR,
    'ashr': lambda a, b: a >> b, 'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem,
}
CMP = {
    'eq': lambda a, b: a == b, 'neq': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}


def _const(args, name):
    """integer of a modarg/genarg"""
    v = args[name]
    v = v[1] if isinstance(v, list) else v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    base = v.split("'")[1] if "'" in v else 'd' + v
    return int(base[1:].replace('_', ''), {'h': 16, 'b': 2, 'd': 10}[base[0]])


def _bool(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


class Prim:
    """ports (name -> type) and the output function of one library primitive"""

    def __init__(self, ref, g, m):
        lib, op = ref.split('.')
        w = _const(g, 'width') if 'width' in g else 1
        self.op, self.w, self.m, self.g, self.lib = op, w, m, g, lib
        I = (lambda n: 'BitIn') if lib == 'corebit' else (lambda n: _arr(n, 'BitIn'))
        O = (lambda n: 'Bit') if lib == 'corebit' else (lambda n: _arr(n, 'Bit'))
        self.state = False
        if lib not in ('coreir', 'corebit', 'commonlib'):
            raise Unsupported(ref)
        if lib == 'commonlib':
            if op != 'muxn':
                raise Unsupported(ref)
            n = _const(g, 'N')
            self.n = n
            self.ports = {'in': ['Record', [['data', _arr(n, _arr(w, 'BitIn'))], ['sel', _arr(max(1, (n - 1).bit_length()), 'BitIn')]]],
                          'out': _arr(w, 'Bit')}
        elif op in BIN:
            self.ports = {'in0': I(w), 'in1': I(w), 'out': O(w)}
        elif op in CMP:
            self.ports = {'in0': I(w), 'in1': I(w), 'out': 'Bit'}
        elif op in ('not', 'neg', 'wire'):
            self.ports = {'in': I(w), 'out': O(w)}
        elif op in ('andr', 'orr', 'xorr'):
            self.ports = {'in': I(w), 'out': 'Bit'}
        elif op == 'mux':
            self.ports = {'in0': I(w), 'in1': I(w), 'sel': 'BitIn', 'out': O(w)}
        elif op == 'const':
            self.ports = {'out': O(w)}
        elif op == 'term':
            self.ports = {'in': I(w)}
        elif op in ('reg', 'reg_arst'):
            self.ports = {'in': I(w), 'out': O(w), 'clk': 'BitIn', 'arst': 'BitIn'}
            self.state = True
        elif op == 'slice':
            self.lo, self.hi = _const(g, 'lo'), _const(g, 'hi')
            self.ports = {'in': I(w), 'out': O(self.hi - self.lo)}
        elif op == 'concat':
            self.w0, self.w1 = _const(g, 'width0'), _const(g, 'width1')
            self.ports = {'in0': I(self.w0), 'in1': I(self.w1), 'out': O(self.w0 + self.w1)}
        elif op in ('zext', 'sext'):
            self.wi, self.wo = _const(g, 'width_in'), _const(g, 'width_out')
            self.ports = {'in': I(self.wi), 'out': O(self.wo)}
        else:
            raise Unsupported(ref)

    def output(self, inp):
        """inp(port) -> term"""
        op = self.op
        if self.lib == 'commonlib':
            data = inp('in')                      # flattened: data then sel
            n, w = self.n, self.w
            sw = max(1, (n - 1).bit_length())
            sel = z3.Extract(n * w + sw - 1, n * w, data)
            out = z3.Extract(n * w - 1, (n - 1) * w, data)
            for i in reversed(range(n - 1)):
                out = z3.If(sel == i, z3.Extract((i + 1) * w - 1, i * w, data), out)
            return out
        if op in BIN:
            return BIN[op](inp('in0'), inp('in1'))
        if op in CMP:
            return _bool(CMP[op](inp('in0'), inp('in1')))
        if op == 'not':
            return ~inp('in')
        if op == 'neg':
            return -inp('in')
        if op == 'wire':
            return inp('in')
        if op == 'andr':
            return z3.BVRedAnd(inp('in'))
        if op == 'orr':
            return z3.BVRedOr(inp('in'))
        if op == 'xorr':
            a = inp('in')
            r = z3.Extract(0, 0, a)
            for i in range(1, self.w):
                r = r ^ z3.Extract(i, i, a)
            return r
        if op == 'mux':
            return z3.If(inp('sel') == 1, inp('in1'), inp('in0'))
        if op == 'const':
            return z3.BitVecVal(_const(self.m, 'value'), self.w)
        if op == 'slice':
            return z3.Extract(self.hi - 1, self.lo, inp('in'))
        if op == 'concat':
            return z3.Concat(inp('in1'), inp('in0'))
        if op == 'zext':
            return z3.ZeroExt(self.wo - self.wi, inp('in'))
        if op == 'sext':
            return z3.SignExt(self.wo - self.wi, inp('in'))
        raise Unsupported(op)


class Module:
    def __init__(self, net, ref):
        ns, name = ref.split('.')
        d = net['namespaces'][ns]['modules'][name]
        self.name = ref
        self.ports = {n: T for n, T in d['type'][1]}
        self.inst = {}
        for n, i in d.get('instances', {}).items():
            if 'modref' in i and i['modref'].split('.')[0] in ('corebit', 'coreir'):
                self.inst[n] = Prim(i['modref'], i.get('genargs', {}), i.get('modargs', {}))
            elif 'modref' in i:
                self.inst[n] = i['modref']
            else:
                self.inst[n] = Prim(i['genref'], i.get('genargs', {}), i.get('modargs', {}))
        self.conns = d.get('connections', [])
        self.has_def = 'instances' in d or 'connections' in d


class Circuit:
    """one elaborated netlist; state is a dict  path -> term"""

    def __init__(self, path):
        with open(path) as f:
            self.net = json.load(f)
        self.mods = {}
        self.top = self.net['top']
        self._drv = {}
        self.ports = self.module(self.top).ports

    def module(self, ref):
        if ref not in self.mods:
            self.mods[ref] = Module(self.net, ref)
        return self.mods[ref]

    def port_type(self, mod, inst, port):
        if inst == 'self':
            return mod.ports[port]
        i = mod.inst[inst]
        return (i.ports if isinstance(i, Prim) else self.module(i).ports)[port]

    def drivers(self, ref):
        """per module: (inst, port, bit) -> (inst, port, bit) driving it"""
        if ref in self._drv:
            return self._drv[ref]
        mod = self.module(ref)
        drv = {}
        for a, b in mod.conns:
            ends = []
            for e in (a, b):
                inst, port, *path = e.split('.')
                T = self.port_type(mod, inst, port)
                off, n = _walk(T, path)
                src = _is_input(T) if inst == 'self' else not _is_input(T)
                ends.append((src, [(inst, port, off + k) for k in range(n)]))
            (sa, ba), (sb, bb) = ends
            if sa == sb or len(ba) != len(bb):
                raise Unsupported(f'connection {a} {b}')
            if sb:
                ba, bb = bb, ba
            for s, d in zip(ba, bb):
                if drv.setdefault(d, s) != s:
                    raise symex.EngineError(f'two drivers for {d} in {ref}')
        self._drv[ref] = drv
        return drv

    def registers(self):
        out = {}

        def go(ref, path):
            mod = self.module(ref)
            for n, i in mod.inst.items():
                if isinstance(i, Prim):
                    if i.state:
                        out[path + (n,)] = i
                else:
                    go(i, path + (n,))
        go(self.top, ())
        return out

    def initial(self):
        return {p: z3.BitVecVal(_const(r.m, 'init') if 'init' in r.m else 0, r.w) for p, r in self.registers().items()}

    def step(self, inputs, state):
        """inputs: port -> term; returns (outputs, next state)"""
        memo = {}

        def inst_ref(path):
            ref = self.top
            for p in path:
                i = self.module(ref).inst[p]
                if isinstance(i, Prim):
                    return i
                ref = i
            return ref

        def sink(path, inst, port):
            """value of an input port of `inst` (or an output port of the module itself) inside module at path"""
            k = (path, inst, port, 'sink')
            if k in memo:
                if memo[k] is None:
                    raise symex.EngineError('combinational loop')
                return memo[k]
            memo[k] = None
            ref = inst_ref(path)
            n = _size(self.port_type(self.module(ref), inst, port))
            drv = self.drivers(ref)
            parts = []
            i = 0
            while i < n:
                s = drv.get((inst, port, i))
                if s is None:
                    # unconnected clock/reset bits are irrelevant; anything else is a hole in the netlist
                    raise Undriven(f'{".".join(path)} {inst}.{port}[{i}] is not driven')
                j = i
                while j + 1 < n and drv.get((inst, port, j + 1)) == (s[0], s[1], s[2] + j + 1 - i):
                    j += 1
                t = source(path, s[0], s[1])
                lo, hi = s[2], s[2] + j - i
                parts.append(t if lo == 0 and hi == t.size() - 1 else z3.Extract(hi, lo, t))
                i = j + 1
            r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
            memo[k] = r = z3.simplify(r)
            return r

        def source(path, inst, port):
            k = (path, inst, port)
            if k in memo:
                if memo[k] is None:
                    raise symex.EngineError('combinational loop')
                return memo[k]
            memo[k] = None
            if inst == 'self':
                if not path:
                    r = inputs[port]
                else:
                    r = sink(path[:-1], path[-1], port)
            else:
                i = self.module(inst_ref(path)).inst[inst]
                if isinstance(i, Prim):
                    r = state[path + (inst,)] if i.state else i.output(lambda p: sink(path, inst, p))
                else:
                    r = sink(path + (inst,), 'self', port)
            memo[k] = r = z3.simplify(r)
            return r

        outs = {}
        for n, T in self.ports.items():
            if not _is_input(T):
                outs[n] = sink((), 'self', n)
        nxt = {p: sink(p[:-1], p[-1], 'in') for p in state}
        return outs, nxt


class Undriven(Exception):
    pass


def compile_circuit(circ, name):
    import magma
    path = os.path.join(os.getcwd(), name)
    if '/opt/venv/bin' not in os.environ['PATH'].split(':'):
        os.environ['PATH'] = '/opt/venv/bin:' + os.environ['PATH']
    magma.compile(path, circ, output='coreir')
    return Circuit(path + '.json')


def simulate(circ, trace, clocked):
    """verilator run of a concrete trace: [(inputs, expected outputs, reset?)]; returns an error text or None"""
    import fault
    if '/opt/venv/bin' not in os.environ['PATH'].split(':'):
        os.environ['PATH'] = '/opt/venv/bin:' + os.environ['PATH']

    def run(expect):
        t = fault.Tester(circ, circ.CLK) if clocked else fault.Tester(circ)
        if clocked:
            t.circuit.CLK = 0
            t.circuit.ASYNCRESET = 0
            t.eval()
        for ins, outs, reset in trace:
            if clocked and reset:
                t.circuit.ASYNCRESET = 1
                t.eval()
                t.circuit.ASYNCRESET = 0
                t.eval()
            for n, v in ins.items():
                setattr(t.circuit, n, int(v))
            t.eval()
            if expect:
                for n, v in outs.items():
                    getattr(t.circuit, n).expect(int(v))
            if clocked:
                t.step(2)
        d = os.path.join(os.getcwd(), f'sim{int(expect)}')
        os.makedirs(d, exist_ok=True)
        t.compile_and_run('verilator', flags=['-Wno-fatal', '-Wno-lint'], directory=d)
    run(False)
    try:
        run(True)
    except AssertionError as e:
        return str(e)[-300:]
    return None
