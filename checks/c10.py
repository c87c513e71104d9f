import functools

import z3
from hwtypes import BitVector, Bit, UIntVector

from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='A memory is driven by a history of symbolic operations (instance, address, data, write enable) over symbolic '
                'initial contents; every read must return what an array reference returns.',
    bounds='depth 1..5, data 1..8 bits, contents shorter, equal and longer than the depth, 1-2 instances, histories of 3 '
           'operations (4 thorough); addresses below the depth; enable as Bit, bool or int',
    level='other')


def addr(ctx, name, n, aw, kind):
    """an address below n, in the given representation"""
    a = ctx.raw(name, aw)
    c = a < n
    ctx.assume(c if not isinstance(c, bool) else bool(c))
    if kind == 'bv':
        return BitVector[aw](a), a
    if kind == 'uint':
        return UIntVector[aw](a), a
    return a.__index__(), a


def term(T, v):
    """z3 bits of what a memory returned (an unconverted Python integer counts as the vector it was declared as)"""
    if isinstance(v, (Bit, BitVector)):
        return z3_of(v)
    return z3_of(T(v))


def run(ctx, n, T, nmem, steps, default, akind, rom=False, two=False, cls='RAM', typed=True):
    from peak import memory
    C = getattr(memory, cls)
    w = None if T is Bit else T.size
    aw = max(1, (n - 1).bit_length())

    def data(name):
        return ctx.bit(name) if T is Bit else ctx.bv(name, w, T.unsized_t)
    insts, refs = [], []
    for k in range(2 if two else 1):
        mem = [data(f'm{k}.{i}') for i in range(nmem)]
        fill = T(1) if default else None
        contents = list(mem)
        insts.append(C(T, n, contents, init=fill) if default else C(T, n, contents))
        refs.append([z3_of(m) for m in mem[:n]] + [z3_of(fill if default else T(0))] * (n - nmem))
        del contents[:]          # the memory must not depend on the list it was built from
    for s in range(steps):
        k = ctx.choice(f's{s}.k', range(len(insts)))
        a, ra = addr(ctx, f's{s}.a', n, aw, akind)
        if rom:
            got = insts[k](a)
        else:
            d = data(f's{s}.d')
            kind = ctx.choice(f's{s}.ek', ['bit', 'const']) if s == 0 else 'bit'
            if kind == 'bit':
                en = ctx.bit(f's{s}.en')
                e = z3_of(en)
            else:
                en = ctx.choice(f's{s}.ec', [0, 1, True, False])
                e = z3.BoolVal(bool(en))
            got = insts[k](a, d, en) if s % 2 else insts[k](addr=a, data=d, wen=en)
        ref = refs[k]
        ra = z3_of(BitVector[aw](ra))
        want = ref[0]
        for i in range(1, n):
            want = z3.If(ra == i, ref[i], want)
        g = term(T, got)
        ctx.check(g == want, f'operation {s} on memory {k} returned the wrong value')
        if not rom:
            d = z3_of(d)
            refs[k] = [z3.If(z3.And(e, ra == i), d, ref[i]) for i in range(n)]
    # the final contents of every cell
    for k, m in enumerate(insts):
        for i in range(n):
            x = m(i) if rom else m(i, T(0), Bit(0))
            ctx.check(term(T, x) == refs[k][i], f'cell {i} of memory {k} holds the wrong value')


def scenarios(tier, seed):
    more = tier != 'quick'
    st = 4 if more else 3
    out = []

    def add(name, **k):
        out.append(Scenario(name, functools.partial(run, **k), max_paths=60000, budget_s=600 if more else 120))
    for n in (1, 2, 3, 4) + ((5,) if more else ()):
        for T, tn in ((BitVector[4], 'bv4'), (Bit, 'bit'), (UIntVector[8], 'u8'), (BitVector[1], 'bv1')):
            for nmem in sorted({0, 1, n - 1, n, n + 2}):
                steps = st if n <= 3 and tn == 'bv4' else 2
                add(f'ram/{n}x{tn}/init{nmem}', n=n, T=T, nmem=nmem, steps=steps, default=False, akind='bv')
                add(f'rom/{n}x{tn}/init{nmem}', n=n, T=T, nmem=nmem, steps=2, default=nmem % 2 == 1, akind='bv', rom=True, cls='ROM')
    for ak in ('int', 'uint'):
        add(f'ram/addr={ak}', n=4, T=BitVector[4], nmem=4, steps=2, default=False, akind=ak)
    add('ram/default', n=4, T=BitVector[4], nmem=1, steps=2, default=True, akind='bv')
    add('ram/two', n=3 if more else 2, T=BitVector[4], nmem=1, steps=st, default=False, akind='bv', two=True)
    add('memory/alias', n=2, T=BitVector[4], nmem=1, steps=3, default=False, akind='bv', cls='Memory')
    add('rom/two', n=3, T=BitVector[4], nmem=2, steps=2, default=True, akind='bv', two=True, rom=True, cls='ROM')
    return out
