"""Random architectures with operations of their own, for the mapper checks (C15-C20): `rnd<seed>.<i>` with operations o0..o3.

An architecture decodes a random composite instruction (product, tagged union, sum, nested) and computes a random expression per
form; two of its operations are specialisations of one form (constants fixed or turned into operands), one is unrelated, one is
almost a specialisation."""
import functools
import itertools
import os
import random

W = 2
NOPS = 4

HEAD = '''from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from peak import Peak, family_closure, name_outputs, Const

W = 2
Word = BitVector[2]
Nib = BitVector[1]


class Dense(Enum):
    a = 0
    b = 1
    c = 2
    d = 3


class Sparse(Enum):
    a = 1
    b = 2
    c = 4

'''
LEAVES = ['Word', 'Word', 'Word', 'Bit', 'Bit', 'Dense', 'Sparse', 'Nib']


class Gen:
    def __init__(self, seed, i):
        self.rng = random.Random(f'arch/{seed}/{i}')
        self.n = itertools.count()
        self.decl = []

    # ------------------------------------------------------------ types; a type is its source name
    def product(self, depth):
        nm = f'P{next(self.n)}'
        fs = [(f'f{j}', self.type(depth - 1)) for j in range(self.rng.randint(1, 3))]
        self.decl.append(f'class {nm}(Product):\n' + ''.join(f'    {k} = {t[0]}\n' for k, t in fs) + '\n')
        return nm, 'product', fs

    def type(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.55:
            return r.choice(LEAVES), 'leaf', None
        k = r.choice(['product', 'product', 'tuple', 'tagged', 'sum'])
        if k == 'product':
            return self.product(depth)
        if k == 'tuple':
            ts = [self.type(depth - 1) for _ in range(r.randint(1, 3))]
            nm = f'T{next(self.n)}'
            self.decl.append(f'{nm} = Tuple[{", ".join(t[0] for t in ts)}]\n')
            return nm, 'tuple', list(enumerate(ts))
        if k == 'tagged':
            fs = [(f'v{j}', self.type(depth - 1)) for j in range(r.randint(2, 3))]
            nm = f'U{next(self.n)}'
            self.decl.append(f'class {nm}(TaggedUnion):\n' + ''.join(f'    {k} = {t[0]}\n' for k, t in fs) + '\n')
            return nm, 'tagged', fs
        ts = [self.product(depth - 1) for _ in range(r.randint(1, 2))] + [(r.choice(LEAVES), 'leaf', None)]
        r.shuffle(ts)
        nm = f'S{next(self.n)}'
        self.decl.append(f'{nm} = Sum[{", ".join(t[0] for t in ts)}]\n')
        return nm, 'sum', [(t[0], t) for t in ts]

    def forms(self, expr, t):
        """[(conditions, [(source expression, leaf type)])]"""
        nm, k, fs = t
        if k == 'leaf':
            return [([], [(expr, nm)])]
        if k in ('tagged', 'sum'):
            out = []
            for a, f in fs:
                sel = f'{expr}.{a}' if k == 'tagged' else f'{expr}[{a}]'
                out += [([f'{sel}.match'] + c, l) for c, l in self.forms(f'{sel}.value', f)]
            return out
        out = [([], [])]
        for a, f in fs:
            sub = self.forms(f'{expr}.{a}' if k == 'product' else f'{expr}[{a}]', f)
            out = [(c + d, l + m) for c, l in out for d, m in sub]
        return out

    # ------------------------------------------------------------ expressions over [(source, type)]; nested tuples
    def word(self, d, ls):
        r = self.rng
        ws = [('leaf', e, t) for e, t in ls if t == 'Word'] + [('zext', ('leaf', e, t)) for e, t in ls if t == 'Nib']
        if d == 0 or r.random() < 0.15:
            e = r.choice(ws) if ws and r.random() < 0.9 else ('const', r.randrange(1 << W))
            return ('bin', '&', e, ('const', r.randrange(1, 1 << W))) if r.random() < 0.15 else e
        k = r.random()
        if k < 0.6:
            return ('bin', r.choice('+-&|^'), self.word(d - 1, ls), self.word(d - 1, ls))
        if k < 0.72:
            return ('not', self.word(d - 1, ls))
        return ('ite', self.bit(d - 1, ls), self.word(d - 1, ls), self.word(d - 1, ls))

    def bit(self, d, ls):
        r = self.rng
        bs = [('leaf', e, t) for e, t in ls if t == 'Bit']
        es = [('member', ('leaf', e, t), m) for e, t in ls if t in ('Dense', 'Sparse') for m in ('abcd' if t == 'Dense' else 'abc')]
        if (bs or es) and (d <= 0 or r.random() < 0.7):
            return r.choice(bs * 2 + es)
        if r.random() < 0.5 or d <= 0:
            return ('cmp', r.choice(['==', '<', '!=']), self.word(0, ls), self.word(0, ls))
        return r.choice([('not', self.bit(d - 1, ls)), ('bin', '^', self.bit(d - 1, ls), self.bit(d - 1, ls)),
                         ('bin', '&', self.bit(d - 1, ls), self.bit(d - 1, ls))])

    def show(self, e, sub=None):
        """source of an expression; sub: leaf source -> other source"""
        k = e[0]
        g = lambda x: self.show(x, sub)
        if k == 'leaf':
            return (sub or {}).get(e[1], e[1])
        if k == 'const':
            return f'BV({e[1]})'
        if k == 'bin':
            return f'({g(e[2])} {e[1]} {g(e[3])})'
        if k == 'cmp':
            return f'({g(e[2])} {e[1]} {g(e[3])})'
        if k == 'not':
            return f'(~{g(e[1])})'
        if k == 'zext':
            return f'{g(e[1])}.zext(1)'
        if k == 'member':
            v = g(e[1])
            return f'B({v} == {e[1][2]}.{e[2]})'
        return f'{g(e[1])}.ite({g(e[2])}, {g(e[3])})'

    def leaves(self, e):
        if e[0] == 'leaf':
            return {(e[1], e[2])}
        return set().union(*[self.leaves(x) for x in e if isinstance(x, tuple)]) if any(isinstance(x, tuple) for x in e) else set()

    def component(self, name, args, outs, body):
        sig = ', '.join(f'{a}: {t}' for a, t in args)
        res = outs[0][1] if len(outs) == 1 else '(' + ', '.join(t for _, t in outs) + ')'
        nm = '' if self.rng.random() < 0.3 else f'        @name_outputs({", ".join(f"{a}={t}" for a, t in outs)})\n'
        return (f'@family_closure\ndef {name}(family):\n    BV = family.BitVector[2]\n    B1 = family.BitVector[1]\n    B = family.Bit\n\n    @family.assemble(locals(), globals())\n'
                f'    class {name.capitalize()}(Peak):\n{nm}        def __call__(self, {sig}) -> {res}:\n{body}    return {name.capitalize()}\n\n\n')

    def source(self):
        r = self.rng
        while True:
            self.n, self.decl = itertools.count(), []
            inst = self.type(3)
            forms = self.forms('inst', inst)
            data = [(f'd{j}', r.choice(['Word', 'Word', 'Word', 'Bit', 'Nib' if r.random() < 0.5 else 'Word', 'Sparse' if r.random() < 0.4 else 'Word']))
                    for j in range(r.randint(1, 4))]
            extra = [(f'k{j}', r.choice(LEAVES)) for j in range(r.choice([0, 0, 1]))]
            n = max(len(l) for c, l in forms) + len(data) + len(extra)
            words = max(sum(t == 'Word' for _, t in l + data + extra) for c, l in forms)
            if len(forms) <= 5 and n <= 7 and (len(forms) > 1 or r.random() < 0.3) and words >= r.choice([2, 3, 3, 4]) \
                    and 'Word' in {t for _, t in data}:
                break
        outs = [('out', 'Word')] + [[], [('flag', 'Bit')], [('hi', 'Word')]][r.choice([0, 0, 1, 2])]
        if r.random() < 0.3:
            outs.reverse()
        args = [('inst', f'Const({inst[0]})')] + [(a, f'Const({t})') for a, t in extra] + data
        if r.random() < 0.4:
            r.shuffle(args)
        exprs = []
        todo = []
        for c, ls in forms:
            ls = ls + extra + data
            es = [self.word(2, ls) if t == 'Word' else self.bit(2, ls) for _, t in outs]
            exprs.append(es)
            todo.append((c, es))
        lines = []

        def emit(fs, ind):
            first = fs[0][0][:1]
            if not first:
                (c, es), = fs
                lines.extend(f'{ind}r{a} = {self.show(e)}\n' for (a, _), e in zip(outs, es))
                return
            here, rest = [(c[1:], e) for c, e in fs if c[:1] == first], [(c, e) for c, e in fs if c[:1] != first]
            if not rest:
                return emit(here, ind)
            lines.append(f'{ind}if {first[0]}:\n')
            emit(here, ind + '    ')
            lines.append(f'{ind}else:\n')
            emit(rest, ind + '    ')
        emit(todo, ' ' * 12)
        body = ''.join(lines)
        body += ' ' * 12 + 'return ' + ', '.join('r' + a for a, _ in outs) + '\n'
        src = HEAD + '\n\n'.join(self.decl) + '\n\n' + self.component('arch', args, outs, body)
        for j in range(NOPS):
            src += self.operation(f'o{j}', forms, exprs, outs, extra, data, j)
        return src

    def operation(self, name, forms, exprs, outs, extra, data, j):
        r = self.rng
        f = r.randrange(len(forms))
        keep = list(range(len(outs))) if r.random() < 0.4 else [r.randrange(len(outs))]
        es = [exprs[f][k] for k in keep]
        ots = [(f'o{k}', outs[k][1]) for k in keep]
        consts = forms[f][1] + extra
        if j == 2:                                     # unrelated
            ls = r.sample(data, r.randint(1, len(data))) + ([r.choice([c for c in consts])] if consts and r.random() < 0.5 else [])
            es = [self.word(1, ls) if t == 'Word' else self.bit(1, ls) for _, t in ots]
        if j == 3:
            es = [self.near(e) for e in es]
        used = set().union(*[self.leaves(e) for e in es])
        sub, args = {}, []
        for e, t in consts + data:
            if (e, t) not in used:
                continue
            isc = (e, t) in consts
            if isc and r.random() < (0.6 if j != 3 else 0.2):
                sub[e] = {'Word': f'BV({r.randrange(4)})', 'Nib': f'B1({r.randrange(2)})', 'Bit': f'family.Bit({r.randrange(2)})'}.get(t)
                if sub[e] is None:
                    # a member instead of the leaf: every comparison is decided
                    sub[e] = '!' + r.choice('abc')
            else:
                sub[e] = f'x{len(args)}'
                args.append((sub[e], f'Const({t})' if isc else t))
        es = [self.decide(e, sub) for e in es]
        names = set().union(*[{a for a, _ in self.leaves(e)} for e in es])
        args = [(a, t) for a, t in args if a in {sub[n] for n in names if n in sub}]
        if not args:
            args = [('x0', 'Word')]
        if r.random() < 0.3:
            args.reverse()
        body = ' ' * 12 + 'return ' + ', '.join(self.show(e, sub) for e in es) + '\n'
        return self.component(name, args, ots, body)

    def near(self, e):
        """e with one operator dropped"""
        sites = []

        def walk(x, path):
            if x[0] == 'bin':
                sites.append(path)
            for i, y in enumerate(x):
                if isinstance(y, tuple):
                    walk(y, path + (i,))

        def put(x, path):
            if not path:
                return x[self.rng.choice([2, 3]) if x[3][0] != 'const' else 2]
            return x[:path[0]] + (put(x[path[0]], path[1:]),) + x[path[0] + 1:]
        walk(e, ())
        return put(e, self.rng.choice(sites)) if sites else e

    def decide(self, e, sub):
        if e[0] == 'member' and sub.get(e[1][1], '')[:1] == '!':
            return ('cmp', '==', ('const', 0), ('const', int(sub[e[1][1]][1] != e[2])))
        return tuple(self.decide(x, sub) if isinstance(x, tuple) else x for x in e)


@functools.lru_cache(None)
def module(name):
    """the module of `rnd<seed>.<i>`, written into the scratch directory"""
    import importlib.util
    seed, i = name[3:].split('.')
    src = Gen(int(seed), int(i)).source()
    mod = f'random_arch_{seed}_{i}'
    path = os.path.join(os.getcwd(), mod + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(mod, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def names(seed, n):
    return [(f'rnd{seed}.{i}', [f'rnd{seed}.{i}.o{j}' for j in range(NOPS)]) for i in range(n)]
