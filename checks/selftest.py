"""Not a property: compares the symbolic bit-vector layer with stock hwtypes.

Expected tables are computed by a fresh interpreter with unpatched hwtypes."""
import json
import subprocess
import sys

from lib.runner import Scenario

META = dict(explanation='engine self test', level='other')

BIN = ['bvand', 'bvor', 'bvxor', 'bvadd', 'bvsub', 'bvmul', 'bvudiv', 'bvurem', 'bvshl', 'bvlshr', 'bvashr',
       'bvult', 'bvule', 'bvugt', 'bvuge', 'bvslt', 'bvsle', 'bvsgt', 'bvsge', 'bveq', 'bvne', 'bvsdiv', 'bvsrem',
       '__add__', '__sub__', '__mul__', '__and__', '__or__', '__xor__', '__lshift__', '__rshift__',
       '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', 'concat', '__floordiv__', '__mod__']
UN = ['bvnot', 'bvneg', '__neg__', '__invert__', 'zext2', 'sext2', 'as_uint', 'as_sint',
      'slice', 'get0', 'getm1', 'bits', 'inc', 'rsub', 'set1', 'eqint', 'sl3', 'neg_slice', 'int', 'ite']
KINDS = ['BitVector', 'UIntVector', 'SIntVector']


def apply(op, x, y=None, int=int):
    try:
        return apply_(op, x, y, int)
    except ZeroDivisionError:
        return 'zde'
    except (TypeError, AttributeError) as e:
        return 'exc'


def apply_(op, x, y=None, int=int):
    import hwtypes
    if y is not None:
        return getattr(x, op)(y)
    T = type(x)
    if op == 'zext2':
        return x.zext(2)
    if op == 'sext2':
        return x.sext(2)
    if op == 'slice':
        return x[1:]
    if op == 'neg_slice':
        return x[:-1]
    if op == 'get0':
        return x[0]
    if op == 'getm1':
        return x[-1]
    if op == 'bits':
        return T(x.bits()) if hasattr(x, 'bits') else T([x[i] for i in range(x.size)])
    if op == 'inc':
        return x + 1
    if op == 'rsub':
        return 1 - x
    if op == 'eqint':
        return x == 2
    if op == 'sl3':
        return x << 1
    if op == 'set1':
        z = T(x)
        z[1] = hwtypes.Bit(1)
        return z
    if op == 'int':
        return int(x)
    if op == 'ite':
        return (x[0]).ite(x, ~x)
    if op in ('as_uint', 'as_sint', 'bvnot', 'bvneg', '__neg__', '__invert__'):
        return getattr(x, op)()
    raise KeyError(op)


def val(r):
    import hwtypes
    if isinstance(r, hwtypes.BitVector):
        return [type(r).__name__, r._value]
    if isinstance(r, hwtypes.Bit):
        return ['Bit', int(r._value)]
    return ['int', r if isinstance(r, str) else int(r)]


def tables():
    import hwtypes
    out = {}
    for K in KINDS:
        for w in (2, 3):
            T = getattr(hwtypes, K)[w]
            for op in BIN:
                out[f'{K}/{w}/{op}'] = [[val(apply(op, T(a), T(b))) for b in range(1 << w)] for a in range(1 << w)]
            for op in UN:
                out[f'{K}/{w}/{op}'] = [val(apply(op, T(a))) for a in range(1 << w)]
    return out


def scenarios(tier, seed):
    tab = json.loads(subprocess.run([sys.executable, '-c',
                                     'import json; from checks.selftest import tables; print(json.dumps(tables()))'],
                                    check=True, capture_output=True, text=True).stdout)
    import hwtypes
    from lib import symex

    def mk(key, exp):
        K, w, op = key.split('/')
        w = int(w)

        def fn(ctx):
            T = getattr(hwtypes, K)[w]
            x = T(ctx.raw('x', w))
            if op in BIN:
                y = T(ctx.raw('y', w))
                r = apply(op, x, y)
            else:
                r = apply(op, x, int=symex.sym_int)
            if isinstance(r, (hwtypes.BitVector, hwtypes.Bit)):
                name, v = (type(r).__name__ if isinstance(r, hwtypes.BitVector) else 'Bit'), r._value
            else:
                name, v = 'int', r
            for a in range(1 << w):
                for b in range(1 << w) if op in BIN else [None]:
                    en, ev = exp[a][b] if b is not None else exp[a]
                    c = [x._value == a] + ([y._value == b] if b is not None else [])
                    if isinstance(ev, str) or isinstance(v, str):
                        ok = ev == v if isinstance(ev, str) and isinstance(v, str) else False
                    else:
                        ok = (v == (ev if name != 'Bit' else bool(ev)))
                        ctx.check(ctx.implies(ctx.all(*[ctx.cond(q) for q in c]), name == en), f'type {name} {en}')
                    ctx.check(ctx.implies(ctx.all(*[ctx.cond(q) for q in c]), ok), f'{a} {b} expected {ev}')
        return Scenario(key, fn)
    return [mk(k, e) for k, e in tab.items()]
