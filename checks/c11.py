import functools

import z3
from hwtypes import BitVector, Bit, SIntVector, SMTBitVector, SMTBit
from hwtypes.adt import Enum, Product

from lib import fam
from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='Objects holding attribute registers and plain attributes are driven by symbolic histories of assignments, '
                'wrongly typed assignments and reads; every read must return the last value assigned.',
    bounds='2 instances, 3 registers and a plain attribute each, histories of 2 operations (3 thorough), all values; '
           '31 attribute names; families Py, PyX, SMT; state in nested components',
    level='other')


class Mode(Enum):
    A = 0
    B = 1
    C = 5


def family_of(k):
    from peak import family as F
    return {'Py': F.PyFamily, 'PyX': F.PyXFamily, 'SMT': F.SMTFamily}[k]()


def build(family):
    from peak import Peak
    D = family.BitVector[4]
    S = family.Signed[3]
    RD, RD2, RB, RS = (family.gen_attr_register(D, 9), family.gen_attr_register(D, 0), family.gen_attr_register(family.Bit, 1),
                       family.gen_attr_register(S, 2))

    class P(Peak):
        tag = 'class attribute'

        def __init__(self):
            self.a = RD()
            self.b = RD2()
            self.a2 = RD()
            self.f = RB()
            self.s = RS()
            self.plain = None
            self._private = RD2()

        def __call__(self, x: D) -> D:
            return x

        def method(self):
            return self.a
    return P, {'a': (D, 9), 'b': (D, 0), 'a2': (D, 9), 'f': (family.Bit, 1), 's': (S, 2), '_private': (D, 0)}


def value(ctx, family, T, name):
    from peak import family as F
    smt = isinstance(family, F.SMTFamily)
    if issubclass(T, family.Bit):
        return ctx.smt_bit(name) if smt else ctx.bit(name)
    return ctx.smt_bv(name, T.size, T.unsized_t) if smt else ctx.bv(name, T.size, T.unsized_t)


def wrong(family, T):
    """values no register of type T may take"""
    out = [0, None, 'x', True]
    if issubclass(T, family.Bit):
        out += [family.BitVector[1](0)]
    else:
        out += [family.Bit(0), family.BitVector[T.size + 1](0), family.BitVector[T.size - 1](0)]
        if T.unsized_t is not family.BitVector:
            out += [family.BitVector[T.size](0)]
    return out


def history(ctx, fk, steps, names):
    family = family_of(fk)
    P, regs = build(family)
    insts = [P(), P()]
    ref = [{n: z3_of(T(i)) for n, (T, i) in regs.items()} for _ in insts]
    plain = [None, None]

    def observe(k, why):
        for n, (T, _) in regs.items():
            v = getattr(insts[k], n)
            ctx.check(isinstance(v, T), f'{why}: {n} reads as {type(v).__name__}')
            ctx.check(z3_of(v) == ref[k][n], f'{why}: {n} of instance {k} reads the wrong value')
        ctx.check(insts[k].plain is plain[k], f'{why}: plain attribute')
        ctx.check(insts[k].tag == 'class attribute', f'{why}: class attribute')
        ctx.check(z3_of(insts[k].method()) == ref[k]['a'], f'{why}: method sees the register')
    for k in (0, 1):
        observe(k, 'initially')
    for s in range(steps):
        k = ctx.choice(f's{s}.k', (0, 1))
        op = ctx.choice(f's{s}.op', ['write', 'wrong', 'plain', 'copy'])
        if op == 'plain':
            plain[k] = [BitVector[4](s), s, 'text', insts[1 - k]][s % 4]
            insts[k].plain = plain[k]
        else:
            n = ctx.choice(f's{s}.n', names)
            T, _ = regs[n]
            if op == 'write':
                v = value(ctx, family, T, f's{s}.v.{n}')
                if s % 2:
                    setattr(insts[k], n, v)
                else:
                    exec(f'o.{n} = v', dict(o=insts[k], v=v))
                ref[k][n] = z3_of(v)
            elif op == 'wrong':
                v = ctx.choice(f's{s}.w', wrong(family, T))
                try:
                    setattr(insts[k], n, v)
                except TypeError:
                    pass
                else:
                    ctx.fail(f'{n} accepted a {type(v).__name__}')
            else:             # from the other register of the same type
                src, dst = ('a', 'b') if n != 'b' else ('b', 'a2')
                setattr(insts[k], dst, getattr(insts[1 - k], src))
                ref[k][dst] = ref[1 - k][src]
        for j in (0, 1):
            observe(j, f'after {op} {s}')


def program(ctx, fk, steps):
    """registers assigned under conditions in a __call__ and in a sub-component"""
    from lib import programs
    from peak import family_closure, Peak
    family = family_of(fk)
    C = programs.attr_fc(family)

    class Outer(Peak):
        def __init__(self):
            self.x = C()
            self.y = C()
            self.last = family.gen_attr_register(family.BitVector[4], 3)()

        def __call__(self, a: family.BitVector[4], r: family.Bit, s: family.Bit) -> family.BitVector[4]:
            v, _, _ = self.x(a, r)
            w, _, _ = self.y(v, s)
            old = self.last
            self.last = w
            return old
    o = Outer()
    D = family.BitVector[4]
    b4 = lambda n: z3.BitVecVal(n, 4)
    acc = {'x': b4(7), 'y': b4(7)}
    old = {'x': b4(7), 'y': b4(7)}
    ovf = {'x': z3.BoolVal(False), 'y': z3.BoolVal(False)}
    last = b4(3)
    for i in range(steps):
        a = value(ctx, family, D, f'a{i}')
        r = value(ctx, family, family.Bit, f'r{i}')
        s = value(ctx, family, family.Bit, f's{i}')
        got = o(a, r, s)
        ctx.check(z3_of(got) == last, f'call {i}: register of the outer component')
        va, vr = z3_of(a), {'x': z3_of(r), 'y': z3_of(s)}
        cur = {}
        for k in ('x', 'y'):
            cur[k] = acc[k]
            n = acc[k] + va
            ov = z3.If(vr[k], z3.BoolVal(False), z3.Or(ovf[k], z3.ULT(n, acc[k])))
            acc[k], old[k], ovf[k] = z3.If(vr[k], b4(0), n), cur[k], ov
            va = cur[k]
        last = cur['y']
        for k in ('x', 'y'):
            c = getattr(o, k)
            ctx.check(z3_of(c.acc) == acc[k], f'call {i}: {k}.acc')
            ctx.check(z3_of(c.old) == old[k], f'call {i}: {k}.old')
            ctx.check(z3_of(c.ovf) == ovf[k], f'call {i}: {k}.ovf')


def enum_reg(ctx, fk, steps):
    """registers of an enumeration and of a product"""
    family = family_of(fk)
    from peak import Peak
    T = family.get_adt_t(Mode)
    R = family.gen_attr_register(T, Mode.C)
    R2 = family.gen_attr_register(T, Mode.B)

    class P(Peak):
        def __init__(self):
            self.m = R()
            self.n = R2()

        def __call__(self, x: Mode) -> Mode:
            return x
    p = P()
    bits = lambda v: z3_of(fam.bits(v))
    ref = {'m': bits(T(Mode.C)), 'n': bits(T(Mode.B))}
    for i in range(steps + 1):
        for k in ref:
            v = getattr(p, k)
            ctx.check(isinstance(v, T), f'{k} reads as {type(v).__name__}')
            ctx.check(bits(v) == ref[k], f'{k} after {i} assignments')
        k = ctx.choice(f'k{i}', ['m', 'n'])
        x = fam.Input(ctx, Mode, f'v{i}')
        v = x.py() if fk == 'Py' else x.asm_value(family) if fk == 'PyX' else x.smt(family, Mode)
        setattr(p, k, v)
        ref[k] = bits(v)
        try:
            setattr(p, k, family.BitVector[3](0))
            ctx.fail('accepted a bit vector')
        except TypeError:
            pass


# names a register may have: everything but Python's own __dunder__ names goes through the register
NAMES = ['_', '__', '___', '____', '_x', 'x_', '_x_', '_acc_', '__acc', 'acc__', '_acc__', '__acc_', '___acc___', '__a___', '___a__', '_____', '______', 'X', 'value',
         'init', 'width', '_poke', 'peak', '_peek', 'inputs', 'é', 'call', 'self', 'cls', 'a.b', '0']


def named(ctx, fk):
    """the name of an attribute does not matter"""
    family = family_of(fk)
    from peak import Peak
    D = family.BitVector[4]
    R = family.gen_attr_register(D, 9)
    Q = family.gen_attr_register(family.Bit, 1)
    n = ctx.choice('n', NAMES)
    m = ctx.choice('m', [NAMES[(NAMES.index(n) + 1) % len(NAMES)], 'other', '_o_'])

    class P(Peak):
        def __init__(self):
            setattr(self, n, R())
            setattr(self, m, Q())

        def __call__(self, x: D) -> D:
            old = getattr(self, n)
            setattr(self, n, old + x)
            return old
    p, q = P(), P()
    acc = z3.BitVecVal(9, 4)
    for i in range(2):
        x = value(ctx, family, D, f'x{i}')
        got = p(x)
        ctx.check(z3_of(got) == acc, f'call {i} reads {n}')
        acc = acc + z3_of(x)
        ctx.check(z3_of(getattr(p, n)) == acc, f'{n} after call {i}')
        for bad in (family.Bit(0), 1):
            try:
                setattr(p, n, bad)
                ctx.fail(f'{n} accepted {bad!r}')
            except TypeError:
                pass
    ctx.check(z3_of(getattr(p, n)) == acc, f'{n} after refused assignments')
    v = value(ctx, family, family.Bit, 'v')
    setattr(p, m, v)
    ctx.check(z3_of(getattr(p, m)) == z3_of(v), m)
    ctx.check(z3_of(getattr(p, n)) == acc, f'{n} after an assignment to {m}')
    ctx.check(z3_of(getattr(q, n)) == 9, f'{n} of another object')
    ctx.check(z3_of(getattr(q, m)), f'{m} of another object')


def plain(ctx, fk):
    """attributes that hold no register behave as in plain Python"""
    family = family_of(fk)
    from peak import Peak
    R = family.gen_attr_register(family.BitVector[4], 5)

    class Sub(Peak):
        def __init__(self):
            self.v = R()

        def __call__(self, x: family.Bit) -> family.Bit:
            return x

    class P(Peak):
        def __init__(self):
            self.x = 1
            self.sub = Sub()

        def __call__(self, x: family.Bit) -> family.Bit:
            return self.sub(x)

        @property
        def prop(self):
            return self.x
    p = P()
    v = value(ctx, family, family.BitVector[4], 'v')
    ctx.check(p.x == 1 and p.prop == 1, 'plain attribute')
    p.x = v
    ctx.check(p.x is v and p.prop is v, 'plain attribute after assignment')
    ctx.check(isinstance(p.sub, Sub), 'a sub-component reads as itself')
    old = p.sub
    p.sub.v = v
    ctx.check(z3_of(old.v) == z3_of(v), 'register of a sub-component')
    p.sub = Sub()
    ctx.check(p.sub is not old, 'a sub-component can be replaced')
    ctx.check(z3_of(p.sub.v) == z3_of(family.BitVector[4](5)), 'fresh sub-component')
    ctx.check(z3_of(old.v) == z3_of(v), 'the replaced component keeps its state')
    p.x = R()                      # now it is a register
    ctx.check(z3_of(p.x) == z3_of(family.BitVector[4](5)), 'register assigned later')
    p.x = v
    ctx.check(z3_of(p.x) == z3_of(v), 'assignment to the register assigned later')
    for bad in (1, None, family.Bit(0), R()):
        try:
            p.x = bad
            ctx.fail('wrong type accepted')
        except TypeError:
            pass
    ctx.check(z3_of(p.x) == z3_of(v), 'refused assignment changed the register')
    del p.x
    try:
        p.x
        ctx.fail('deleted attribute readable')
    except AttributeError:
        pass
    p.x = 3
    ctx.check(p.x == 3, 'deleted attribute assigned again')
    try:
        p.missing
        ctx.fail('missing attribute readable')
    except AttributeError:
        pass
    ctx.check(getattr(p, 'missing', 7) == 7, 'default of getattr')


def requests(ctx, fk, order):
    """attribute registers of several types and initial values requested in one history"""
    family = family_of(fk)
    from peak import Peak
    B, V = family.Bit, family.BitVector
    reqs = [(V[4], 0), (V[4], 7), (V[3], 7), (V[8], 0), (B, 1), (B, 0), (family.Signed[4], 7), (family.Unsigned[4], 7)]
    picks = [ctx.choice(f'p{i}', range(len(reqs))) for i in range(order)]
    Rs = [family.gen_attr_register(*reqs[i]) for i in picks]

    class P(Peak):
        def __init__(self):
            for i, R in enumerate(Rs):
                setattr(self, f'r{i}', R())

        def __call__(self, x: B) -> B:
            return x
    p, q = P(), P()
    for i, j in enumerate(picks):
        T, init = reqs[j]
        v = getattr(p, f'r{i}')
        ctx.check(type(v) is T, f'type of request {j}')
        ctx.check(z3_of(v) == z3_of(T(init)), f'initial value of request {j}')
    T, init = reqs[picks[0]]
    v = value(ctx, family, T, f'v{picks[0]}')
    p.r0 = v
    for i, j in enumerate(picks):
        want = v if i == 0 else reqs[j][0](reqs[j][1])
        ctx.check(z3_of(getattr(p, f'r{i}')) == z3_of(want), 'instances of one register class share state')
        ctx.check(z3_of(getattr(q, f'r{i}')) == z3_of(reqs[j][0](reqs[j][1])), 'objects share state')


def scenarios(tier, seed):
    more = tier != 'quick'
    out = []
    for fk in ('Py', 'PyX', 'SMT'):
        for nm, names in (('ab', ['a', 'b']), ('fs', ['f', 's']), ('aa', ['a2', '_private'])):
            out.append(Scenario(f'{fk}/history/{nm}', functools.partial(history, fk=fk, steps=3 if more else 2, names=names), max_paths=100000,
                                budget_s=1200 if more else 120))
        out.append(Scenario(f'{fk}/program', functools.partial(program, fk=fk, steps=4 if more else 3)))
        out.append(Scenario(f'{fk}/enum', functools.partial(enum_reg, fk=fk, steps=3)))
        out.append(Scenario(f'{fk}/names', functools.partial(named, fk=fk)))
        out.append(Scenario(f'{fk}/plain', functools.partial(plain, fk=fk)))
        out.append(Scenario(f'{fk}/requests', functools.partial(requests, fk=fk, order=3)))
    return out
