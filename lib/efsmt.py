"""Exact exists-forall solving by instantiation, and a stand-in for the solver that pysmt hands to the mapper.

A quantified formula over bit vectors is decided without quantifier support: candidates for the
existential part come from the instances collected so far, refuted by a quantifier-free query for
the universal part.  Every answer is exact (finite domains, so the loop ends); a query z3 cannot
answer raises EngineError.
"""
import contextlib
import sys
import time

import z3

from .ctx import pysmt_to_z3
from .symex import EngineError, BudgetError, SymInt, SymBool


def check(s):
    from . import symex
    t0 = time.time()
    r = s.check()
    if symex.active():
        st = symex.engine().stats
        st.queries += 1
        st.solver_s += time.time() - t0
    if r == z3.unknown:
        raise EngineError('z3 answered unknown: ' + s.reason_unknown())
    return r == z3.sat


def val(model, v):
    return model.eval(v, model_completion=True)


class Forall:
    """assertion 'for all `ys`: `phi`' as a lazily instantiated constraint"""

    def __init__(self, ys, phi, seeds=None):
        """seeds: assignments of the ys that refuted something before (shared between formulas of one shape)"""
        self.ys = list(ys)
        self.phi = phi
        self.seeds = seeds
        self.instances = [self.at(a) for a in seeds or ()]

    def at(self, vals):
        return z3.simplify(z3.substitute(self.phi, *[(y, v) for y, v in zip(self.ys, vals)]) if self.ys else self.phi)

    def frees(self):
        ys = {y.decl().name() for y in self.ys}
        return [v for n, v in free_vars(self.phi).items() if n not in ys]

    def refute(self, model, xs):
        """instance violated by the model of the free variables, or None"""
        s = z3.Solver()
        s.add(z3.Not(z3.substitute(self.phi, *[(x, val(model, x)) for x in xs])) if xs else z3.Not(self.phi))
        if not check(s):
            return None
        m = s.model()
        vals = [val(m, y) for y in self.ys]
        if self.seeds is not None:
            self.seeds.append(vals)
        self.instances.append(self.at(vals))
        return self.instances[-1]


def free_vars(*ts):
    out, seen, todo = {}, set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        todo.extend(t.children())
    return out


def solve(facts, foralls, limit=4000, ms=60000):
    """model of the quantifier-free facts under which every Forall holds, or None; exact"""
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*facts)
    for f in foralls:
        s.add(*f.instances)
    frees = [f.frees() for f in foralls]
    for _ in range(limit):
        if not check(s):
            return None
        m = s.model()
        ok = True
        for f, xs in zip(foralls, frees):
            inst = f.refute(m, xs)
            if inst is not None:
                s.add(inst)
                ok = False
        if ok:
            return m
    raise BudgetError(f'more than {limit} instances of a universally quantified formula')


_foralls = {}


def split(f):
    """pysmt formula -> (facts, Foralls) in z3"""
    facts, foralls = [], []
    todo = [f]
    while todo:
        g = todo.pop()
        if g.is_and():
            todo.extend(g.args())
        elif g.is_forall():
            if g not in _foralls:      # shared by all paths of a process: instances found once hold on every path
                _foralls[g] = Forall([pysmt_to_z3(v) for v in g.quantifier_vars()], pysmt_to_z3(g.args()[0]))
            foralls.append(_foralls[g])
        elif g.is_quantifier():
            raise EngineError('existential quantifier in an assertion')
        else:
            facts.append(pysmt_to_z3(g))
    return facts, foralls


class Const:
    """what get_value returns: a constant node"""

    def __init__(self, v):
        self.v = v

    def is_constant(self, *a):
        return True

    def constant_value(self):
        return self.v

    bv_unsigned_value = constant_value

    def is_bool_constant(self, *a):
        return isinstance(self.v, (bool, SymBool))

    def is_bv_constant(self, *a):
        return not self.is_bool_constant()


class Stub:
    """a pysmt solver whose answers are decided by `on_solve(facts, foralls)` / `on_value(pysmt variable)`"""

    def __init__(self, on_solve, on_value):
        self.asserted = []
        self.marks = []
        self.on_solve, self.on_value = on_solve, on_value
        self.state = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def exit(self):
        pass

    def add_assertion(self, f, named=None):
        self.asserted.append(f)

    def add_assertions(self, fs):
        for f in fs:
            self.add_assertion(f)

    def push(self, levels=1):
        for _ in range(levels):
            self.marks.append(len(self.asserted))

    def pop(self, levels=1):
        for _ in range(levels):
            del self.asserted[self.marks.pop():]

    def reset_assertions(self):
        self.asserted, self.marks = [], []

    @property
    def assertions(self):
        return list(self.asserted)

    def solve(self, assumptions=None):
        facts, foralls = [], []
        for f in self.asserted + list(assumptions or ()):
            a, b = split(f)
            facts += a
            foralls += b
        self.state = (facts, foralls)
        return self.on_solve(self, facts, foralls)

    def is_sat(self, f):
        self.push()
        self.add_assertion(f)
        r = self.solve()
        self.pop()
        return r

    def is_unsat(self, f):
        return not self.is_sat(f)

    def is_valid(self, f):
        import pysmt.shortcuts as smt
        return not self.is_sat(smt.Not(f))

    def get_value(self, v):
        return self.on_value(self, v)

    def get_py_value(self, v):
        return self.on_value(self, v).constant_value()

    def get_values(self, vs):
        return {v: self.get_value(v) for v in vs}

    def get_model(self):
        return self

    __getitem__ = get_value


def exact_stub():
    """decides what is asserted exactly; values from the model found"""
    import pysmt.shortcuts as smt

    def on_solve(st, facts, foralls):
        st.model = solve(facts, foralls)
        return st.model is not None

    def on_value(st, v):
        r = val(st.model, pysmt_to_z3(v))
        return smt.Bool(z3.is_true(r)) if z3.is_bool(r) else smt.BV(r.as_long(), r.size())
    return Stub(on_solve, on_value)


@contextlib.contextmanager
def solver(make):
    """every solver pysmt creates is make()"""
    from pysmt.factory import Factory
    old = Factory.get_solver
    Factory.get_solver = lambda self, *a, **k: make()
    try:
        yield
    finally:
        Factory.get_solver = old


# ---------------------------------------------------------------- every answer a solver may give
class Answers:
    """a solver that answers with arbitrary values satisfying what is asserted.

    Symbolically: values are the inputs ans0, ans1, ... of the scenario (in the order they are asked for),
    assumed to satisfy the assertions; in a replay they are the recorded values, and the assumption is tested."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.foralls = []
        self.facts = []
        self.eqs = []
        self.lemmas = []

    def make(self):
        return Stub(self.on_solve, self.on_value)

    def on_solve(self, st, facts, foralls):
        if self.ctx.symbolic:
            given = set(self.ctx.kinds) | self.ctx.eng.mirrors
            frees = free_vars(*facts, *[f.phi for f in foralls])
            if any(n in given for n in frees):
                return self.either(facts, foralls, [v for n, v in frees.items() if n not in given])
        if solve(facts, foralls) is None:
            return False
        self.facts, self.foralls = facts, foralls
        return True

    def either(self, facts, foralls, xs):
        """the question depends on inputs of the scenario: one path for each answer"""
        if foralls:
            raise EngineError('a quantified question that depends on inputs')
        e = self.ctx.eng
        e.grown = True
        if e.fork(z3.FreshConst(z3.BoolSort(), 'answer')):
            e.assume(z3.And(*facts))
            self.facts, self.foralls = facts, []
            return True
        self.lemmas.append(Forall(xs, z3.Not(z3.And(*facts))))
        return False

    def on_value(self, st, v):
        if v in self.memo:
            return self.memo[v]
        name = f'ans{len(self.memo)}'
        t = pysmt_to_z3(v)
        bound = any(t.eq(y) for f in self.foralls for y in f.ys)
        c = self.ctx
        x = c.rawbool(name) if z3.is_bool(t) else c.raw(name, t.size())
        if c.symbolic:
            r = Const(x)
            eq = t == x.t
        else:
            import pysmt.shortcuts as smt
            r = smt.Bool(x) if z3.is_bool(t) else smt.BV(x, t.size())
            eq = t == x
        if not bound:          # the value of a bound variable is not restricted by anything
            if c.symbolic:
                c.eng.grown = True
                if not self.eqs:
                    c.eng.solver.add(*self.facts)
                    for f in self.foralls:
                        c.eng.solver.add(*f.instances)
                c.eng.solver.add(eq)
            self.eqs.append(eq)
        self.memo[v] = r
        return r

    def validate(self):
        """in a replay: the recorded answers are answers the solver could have given"""
        if not self.ctx.symbolic and self.eqs:
            self.ctx.assume(solve(self.facts + self.eqs, self.foralls) is not None)

    def check(self, cond, msg):
        """cond holds for every answer (and every other input) on this path"""
        from .symex import Violation
        c = self.ctx
        self.validate()
        if not c.symbolic or not (self.eqs or self.lemmas):
            return c.check(cond, msg)
        cond = c.cond(cond)
        c.reached += 1
        c.eng.stats.checks += 1
        if cond is True:
            return
        neg = z3.Not(cond) if not isinstance(cond, bool) else z3.BoolVal(True)
        while c.eng._sat(neg):
            c.eng._tick()
            m = c.eng.solver.model()
            new = [i for i in (f.refute(m, f.frees()) for f in self.foralls + self.lemmas) if i is not None]
            if not new:
                raise Violation(msg, m)
            c.eng.solver.add(*new)
            c.eng.grown = True


# ---------------------------------------------------------------- every sequence of answers to a refinement loop
class LoopAnswers(Answers):
    """every question asked (solver.solve(), get_model()) may be answered either way and with any values that fit.

    A positive answer gives fresh values; a negative one is a lemma 'nothing satisfies what was asked'.  Values are handed
    out as pysmt nodes, so that the code under test can substitute them; constant_value() of such a node is symbolic."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0
        self.solves = 0
        self.models = 0
        self.nodes = {}
        self.replies = []

    def validate(self):
        if not self.ctx.symbolic:
            self.ctx.assume(all(r.valid() for r in self.replies))

    @contextlib.contextmanager
    def installed(self):
        from pysmt.factory import Factory
        from pysmt.fnode import FNode
        old = {k: getattr(Factory, k) for k in ('get_solver', 'get_model', 'is_sat', 'is_valid', 'is_unsat')}
        oldf = {k: getattr(FNode, k) for k in ('is_constant', 'constant_value', 'bv_unsigned_value')}
        nodes = self.nodes

        def asked(f):
            # pysmt's own simplifier must keep treating the node as a variable
            return f in nodes and not sys._getframe(2).f_globals.get('__name__', '').startswith('pysmt')
        Factory.get_solver = lambda fs, *a, **k: Asked(self)
        Factory.get_model = lambda fs, formula, *a, **k: self.model(formula)
        Factory.is_sat = lambda fs, formula, *a, **k: self.model(formula) is not None
        Factory.is_unsat = lambda fs, formula, *a, **k: self.model(formula) is None
        Factory.is_valid = lambda fs, formula, *a, **k: self.model(~formula) is None
        FNode.is_constant = lambda f, *a, **k: asked(f) or oldf['is_constant'](f, *a, **k)
        FNode.constant_value = lambda f: nodes[f] if asked(f) else oldf['constant_value'](f)
        FNode.bv_unsigned_value = lambda f: nodes[f] if asked(f) else oldf['bv_unsigned_value'](f)
        try:
            yield self
        finally:
            for k, v in old.items():
                setattr(Factory, k, v)
            for k, v in oldf.items():
                setattr(FNode, k, v)

    def given(self):
        return set(self.ctx.kinds) | (self.ctx.eng.mirrors if self.ctx.symbolic else set())

    def ask(self, formulas):
        """None, or the Reply to 'is there a model of all formulas'"""
        facts = []
        for f in formulas:
            a, b = split(f)
            if b:
                raise EngineError('a quantified question in a refinement loop')
            facts += a
        given = self.given()
        frees = [v for n, v in free_vars(*facts).items() if n not in given]
        self.n += 1
        if not self.ctx.symbolic:
            if solve(facts, []) is None:
                return None
            return Reply(self, self.n, facts, frees)
        e = self.ctx.eng
        e.grown = True
        if not any(n in given for n in free_vars(*facts)):
            if solve(facts, []) is None:
                return None
            # satisfiable: only that answer is possible
        elif not e.fork(z3.FreshConst(z3.BoolSort(), 'answer')):
            self.never(frees, z3.Not(z3.And(*facts)) if facts else z3.BoolVal(False))
            return None
        return Reply(self, self.n, facts, frees)

    SEEDS = {}

    def never(self, ys, phi):
        """lemma; the instances that mattered on other paths are assumed right away"""
        ys = sorted(ys, key=lambda y: y.decl().name())
        seeds = self.SEEDS.setdefault(tuple(y.decl().name() for y in ys),
                                      [[z3.BoolVal(False) if z3.is_bool(y) else z3.BitVecVal(0, y.size()) for y in ys]])
        f = Forall(ys, phi, seeds)
        self.lemmas.append(f)
        for i in f.instances:
            self.ctx.eng.assume(i)

    def model(self, formula):
        self.models += 1
        return self.ask([formula])


class Reply:
    """values of one positive answer"""

    def __init__(self, ans, n, facts, frees):
        self.ans, self.n, self.memo = ans, n, {}
        self.copy = {v.decl().name(): z3.Const(f'@{n}.{v.decl().name()}', v.sort()) for v in frees}
        self.facts = [z3.substitute(f, *[(v, self.copy[v.decl().name()]) for v in frees]) for f in facts]
        ans.replies.append(self)
        if ans.ctx.symbolic:
            ans.ctx.eng.assume(z3.And(*self.facts) if self.facts else True)

    def get_value(self, v, model_completion=True):
        import pysmt.shortcuts as smt
        c = self.ans.ctx
        if v in self.memo:
            return self.memo[v]
        t = pysmt_to_z3(v)
        name = t.decl().name()
        if name in self.ans.given():
            return v
        key = f'@{self.n}.{name}'
        x = c.rawbool(key) if z3.is_bool(t) else c.raw(key, t.size())
        if c.symbolic:
            c.eng.grown = True
            r = c.eng.mirror(x)
            self.ans.nodes[r] = x
        else:
            r = smt.Bool(x) if z3.is_bool(t) else smt.BV(x, t.size())
        self.memo[v] = r
        return r

    def __getitem__(self, v):
        return self.get_value(v)

    def get_values(self, vs):
        return {v: self.get_value(v) for v in vs}

    def get_py_value(self, v, model_completion=True):
        return self.get_value(v).constant_value()

    def valid(self):
        """in a replay: the recorded values satisfy what was asked"""
        vals = [self.copy[v.symbol_name()] == pysmt_to_z3(r) for v, r in self.memo.items() if v.symbol_name() in self.copy]
        return solve(self.facts + vals, []) is not None


class Asked(Stub):
    """a solver of the loop"""

    def __init__(self, ans):
        super().__init__(None, None)
        self.ans = ans
        self.reply = None

    def add_assertion(self, f, named=None):
        self.reply = None
        super().add_assertion(f)

    def push(self, levels=1):
        self.reply = None
        super().push(levels)

    def pop(self, levels=1):
        self.reply = None
        super().pop(levels)

    def solve(self, assumptions=None):
        self.ans.solves += 1
        self.reply = self.ans.ask(self.asserted + list(assumptions or ()))
        return self.reply is not None

    def get_value(self, v):
        if self.reply is None:
            raise EngineError('a value is read without a model')
        return self.reply.get_value(v)

    def get_py_value(self, v, model_completion=True):
        return self.get_value(v).constant_value()

    def get_model(self):
        return self.reply

    __getitem__ = get_value
