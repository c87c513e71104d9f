import functools

import z3

from lib.ctx import z3_of
from lib.runner import Scenario

META = dict(
    explanation='A closure is asked for classes in a symbolic order of symbolically chosen requests; each answer must have been '
                'built for the requested family, and programs of the answered classes are run on symbolic inputs to show that they '
                'compute in that family. Equality and hashing of families are checked for every pair.',
    bounds='21 family configurations (5 shipped families, options, user subclasses, the RISC-V and ARM families), every pair; '
           'histories of 3 requests (4 thorough) over 9 of them plus attribute access; closures with extra arguments; 150 '
           'different requests (700 thorough) followed by an arbitrary earlier one',
    level='other')


def configs():
    from peak import family as F
    from peak.assembler import Assembler
    from peak.assembler2 import Assembler as A2
    from examples.riscv import family as RV
    from examples.riscv_m import family as RM

    class UPy(F.PyFamily):
        @property
        def Word(self):
            return self.BitVector[8]

    class UPyX(F.PyXFamily):
        pass

    class USMT(F.SMTFamily):
        pass

    class UMagma(F.MagmaFamily):
        pass
    mk = {
        'Py': F.PyFamily, 'PyX': F.PyXFamily, 'SMT': F.SMTFamily, 'Magma': F.MagmaFamily,
        'PyX/A': lambda: F.PyXFamily(Assembler), 'PyX/A2': lambda: F.PyXFamily(A2), 'SMT/A2': lambda: F.SMTFamily(assembler=A2),
        'Magma/A2': lambda: F.MagmaFamily(A2), 'SMT/A': lambda: F.SMTFamily(assembler=Assembler),
        'UPy': UPy, 'UPyX': UPyX, 'USMT': USMT, 'UMagma': UMagma, 'UPyX/A2': lambda: UPyX(A2), 'USMT/A2': lambda: USMT(A2),
        'RV.Py': RV.PyFamily, 'RV.SMT': RV.SMTFamily, 'RM.Py': RM.PyFamily, 'RM.SMT': RM.SMTFamily,
        'Py/opt': lambda: F.PyFamily(some_option=3), 'PyX/opt': lambda: F.PyXFamily(other=1),
    }
    same = {'PyX/A': 'PyX', 'SMT/A': 'SMT', 'Py/opt': 'Py', 'PyX/opt': 'PyX'}     # options that change nothing
    return mk, (lambda k: same.get(k, k))


HIST = ['Py', 'PyX', 'SMT', 'UPy', 'USMT', 'PyX/A2', 'RV.SMT', 'Magma', 'SMT/A']
ATTR = {'.Py': 'Py', '.PyX': 'PyX', '.SMT': 'SMT', '.Magma': 'Magma'}


def identity(f):
    """what a family builds: its types and the way it represents composites"""
    from hwtypes.adt import Enum
    return f.Bit, f.BitVector, f.Signed, f.Unsigned


def equality(ctx):
    mk, canon = configs()
    a = ctx.choice('a', list(mk))
    b = ctx.choice('b', list(mk))
    x, y = mk[a](), mk[b]()
    want = canon(a) == canon(b)
    ctx.check((x == y) is want, f'{a} == {b} is {x == y}')
    ctx.check((x != y) is (not want), f'{a} != {b} is {x != y}')
    if want:
        ctx.check(hash(x) == hash(y), f'{a} and {b} are equal but hash differently')
    ctx.check(hash(x) == hash(mk[a]()), f'hash of {a} is not stable')
    ctx.check((x == 3) is False and (x != 3) is True, f'{a} == 3')
    ctx.check((x == type(x)) is False, f'{a} equals its own type')
    ctx.check(({x: 1}.get(y) == 1) is want, f'{a} and {b} as keys')


def order(ctx, n, names, attrs):
    from peak import family_closure, Peak
    from peak import family as F
    mk, canon = configs()
    built = []

    @family_closure
    def fc(family):
        D = family.BitVector[4]

        class P(Peak):
            fam = family

            def __call__(self, a: D, b: D) -> D:
                return (a + b) ^ D(5)
        built.append(P)
        return P

    @family_closure
    def other_fc(family):
        class Other(Peak):
            def __call__(self, a: family.Bit) -> family.Bit:
                return ~a
        return Other
    seen = {}
    pool = list(names) + (list(ATTR) if attrs else [])
    for i in range(n):
        r = ctx.choice(f'r{i}', pool)
        key = canon(ATTR.get(r, r))
        f = mk[key]()
        other_fc(f)                  # another closure has its own classes
        if r in ATTR:
            C = getattr(fc, r[1:])
            want_t = mk[ATTR[r]]
        else:
            C = fc(f) if i % 2 else fc(mk[r]())
            want_t = mk[r]
        ctx.check(C in built, f'request {i} ({r}) returned something else')
        ctx.check(type(C.fam) is type(f), f'request {i} ({r}) returned the class built for {type(C.fam).__name__}')
        ctx.check(C.fam == f, f'request {i} ({r}) returned the class of a differently configured family')
        if key in seen:
            ctx.check(C is seen[key], f'request {i} ({r}) returned a new class for an old request')
        else:
            ctx.check(all(C is not s for s in seen.values()), f'request {i} ({r}) returned the class of another request')
        seen[key] = C
        ctx.check(len(built) == len(seen), f'request {i} ({r}): classes built {len(built)}, requested {len(seen)}')
        if not isinstance(f, F.MagmaFamily):
            smt = isinstance(f, F.SMTFamily)
            x = ctx.smt_bv('x', 4) if smt else ctx.bv('x', 4)
            y = ctx.smt_bv('y', 4) if smt else ctx.bv('y', 4)
            got = C()(x, y)
            ctx.check(isinstance(got, f.BitVector[4]), f'{r}: result of the wrong family')
            ctx.check(z3_of(got) == z3_of((x + y) ^ type(x)(5)), f'{r}: wrong result')


def bound(ctx):
    """a closure bound to its own family module"""
    import types
    from peak import family_closure
    from peak import family as F
    mk, canon = configs()
    from examples.riscv import family as RV

    class Mine:
        PyFamily = mk['UPy']
        PyXFamily = mk['UPyX']
        SMTFamily = mk['USMT']
        MagmaFamily = mk['UMagma']
    built = []

    @family_closure(Mine)
    def fc(family):
        built.append(family)
        return types.SimpleNamespace(fam=family)
    order = [ctx.choice(f'o{i}', ['Py', 'PyX', 'SMT', 'Magma']) for i in range(4)]
    seen = {}
    ctx.check(fc.family is Mine, 'family module')
    for o in order:
        r = getattr(fc, o)
        ctx.check(type(r.fam) is getattr(Mine, o + 'Family'), f'{o} was built for {type(r.fam).__name__}')
        ctx.check(seen.setdefault(o, r) is r, f'{o} built twice')
        ctx.check(fc(getattr(Mine, o + 'Family')()) is r, f'{o} explicitly')
        base = getattr(F, o + 'Family')()
        ctx.check(type(fc(base).fam) is type(base), f'{o} of the default module')


def extra_args(ctx):
    """closures with further arguments: one class per argument list"""
    import types
    from peak import family_closure
    mk, canon = configs()

    @family_closure
    def fc(family, n=1, kind='a'):
        return types.SimpleNamespace(v=(type(family), n, kind))
    reqs = [((), {}), ((2,), {}), ((3,), {}), ((2, 'b'), {}), ((), {'n': 2}), ((), {'kind': 'b'}), ((2,), {'kind': 'b'}), ((2,), {'kind': 'c'})]
    seen = []
    for i in range(2):
        k = ctx.choice(f'f{i}', ['Py', 'SMT', 'UPy'])
        a, kw = ctx.choice(f'a{i}', reqs)
        f = mk[k]()
        r = fc(f, *a, **kw)
        want = (type(f), *((list(a) + [None, None])[:2]))
        n = a[0] if a else kw.get('n', 1)
        kind = a[1] if len(a) > 1 else kw.get('kind', 'a')
        ctx.check(r.v[0].__name__ == type(f).__name__ and r.v[1:] == (n, kind), f'request {(k, a, kw)} returned {r.v}')
        for q, s in seen:
            if q == (k, a, kw):
                ctx.check(r is s, f'request {q} built twice')
        seen.append(((k, a, kw), r))


def long_history(ctx, n):
    """many different requests, then an arbitrary earlier one again: a class is never rebuilt or mixed up"""
    import types
    from peak import family_closure
    mk, canon = configs()
    fs = ['Py', 'SMT', 'UPy', 'PyX/A2']

    def closure(family, width=3, *rest, tag=None):
        built.append((family, width, rest, tag))
        return types.SimpleNamespace(v=(family, width, rest, tag))
    built = []
    fc = family_closure(closure)
    got = []
    for i in range(n):
        k = fs[i % len(fs)] if i % 3 else 'Py'
        a, kw = ((i,), {}) if i % 2 else ((i, i % 5), {}) if i % 7 else ((), {'tag': i})
        f = mk[k]()
        r = fc(f, *a, **kw)
        ctx.check(r.v == (f, *((a[0], a[1:]) if a else (3, ())), kw.get('tag')), f'request {i} ({k}, {a}, {kw}) answered {r.v}')
        got.append((k, a, kw, r))
    ctx.check(len(built) == n, f'{n} different requests built {len(built)} classes')
    j = ctx.choice('j', range(n))
    for i in (j, (j * 3 + 1) % n, 0, j):
        k, a, kw, r = got[i]
        ctx.check(fc(mk[k](), *a, **kw) is r, f'request {i} asked again after {n} requests gave another class')
    ctx.check(len(built) == n, 'a class was built again')


def classes(ctx, fk):
    """what a family hands out belongs to it, whatever was requested from other families before"""
    from hwtypes.adt import Enum, Product
    from hwtypes import BitVector
    from peak import family as F
    from lib import programs
    mk, canon = configs()
    first = ctx.choice('first', ['Py', 'PyX', 'SMT', 'PyX/A2', 'SMT/A2'])
    T = ctx.choice('T', [programs.Op, programs.AluInst, programs.Union])
    g = mk[first]()
    g.get_adt_t(T)
    f = mk[fk]()
    t = f.get_adt_t(T)
    ctx.check(t is mk[fk]().get_adt_t(T), 'a new type for an old request')
    if fk in ('Py', 'UPy'):
        ctx.check(t is T, 'Python type')
        return
    from peak.assembler import Assembler
    from peak.assembler2 import Assembler as A2
    A = A2 if fk.endswith('A2') else Assembler
    ctx.check(t.adt_t is T, 'type of the composite')
    ctx.check(t.bv_type is f.BitVector, 'vector type')
    ctx.check(t.assembler_t is A, f'assembler is {t.assembler_t}')
    w = A(T).width
    x = ctx.bv(f'x{w}', w) if f.BitVector is BitVector else ctx.smt_bv(f'x{w}', w)
    ctx.check(z3_of(t(x)._value_) == z3_of(x), 'value')


def scenarios(tier, seed):
    more = tier != 'quick'
    out = [Scenario('equality', equality), Scenario('bound', bound), Scenario('extra_args', extra_args)]
    n = 4 if more else 3
    for m in (10, 40, 150) if not more else (10, 40, 150, 700):
        out.append(Scenario(f'long/{m}', functools.partial(long_history, n=m)))
    out.append(Scenario('order/explicit', functools.partial(order, n=n, names=HIST, attrs=False), max_paths=100000, budget_s=900 if more else 200))
    out.append(Scenario('order/attrs', functools.partial(order, n=n, names=['UPy', 'SMT/A2'], attrs=True), max_paths=100000, budget_s=900 if more else 200))
    out.append(Scenario('order/subclasses', functools.partial(order, n=n, names=['SMT', 'USMT', 'RV.SMT', 'RM.SMT', 'Py', 'RV.Py', 'RM.Py'], attrs=False),
                        max_paths=100000, budget_s=900 if more else 200))
    for fk in ('Py', 'UPy', 'PyX', 'SMT', 'PyX/A2', 'SMT/A2', 'USMT/A2'):
        out.append(Scenario(f'types/{fk}', functools.partial(classes, fk=fk)))
    return out
