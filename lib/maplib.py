"""Independent meaning of rewrite rules: forms, bindings and correctness from the Python types alone."""
import functools
import itertools

import hwtypes
import z3
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from hwtypes.modifiers import unwrap_modifier
from hwtypes import modifiers

from . import fam, enc, efsmt
from .ctx import z3_of, pysmt_to_z3


def modified(T):
    return modifiers.is_modified(T) or (not is_leaf(T) and any(modified(F) for F in T.field_dict.values()))


def strip_modifiers(T):
    """T without modifiers; T itself if it has none (hwtypes would rebuild it)"""
    return modifiers.strip_modifiers(T) if modified(T) else T


def is_leaf(T):
    return enc.is_leaf(T) or issubclass(T, Enum)


def is_const(mods):
    from peak import Const
    return any(m is Const or m == Const for m in mods)


def _sub(T):
    return list(T.field_dict.items())


def forms(T, path=(), mods=()):
    """[{leaf path: (type, const?)}] - one dict per combination of sum alternatives"""
    T, m = unwrap_modifier(T)
    mods = tuple(m) + tuple(mods)
    if is_leaf(T):
        return [{path: (T, is_const(mods))}]
    if issubclass(T, (Sum, TaggedUnion)):
        return [f for k, F in _sub(T) for f in forms(F, path + (k,), mods)]
    out = [{}]
    for k, F in _sub(T):
        out = [{**a, **b} for a in out for b in forms(F, path + (k,), mods)]
    return out


def leaf_width(T):
    return fam.Assembler_width(T)


def bindings(arch, ir):
    """every injective, type-respecting, total routing of the ir leaves into the arch leaves: {arch path: ir path}"""
    irs = list(ir.items())

    def go(i, used):
        if i == len(irs):
            yield {}
            return
        p, t = irs[i]
        for q, u in arch.items():
            if q not in used and u == t:
                for rest in go(i + 1, used | {q}):
                    yield {q: p, **rest}
    return list(go(0, frozenset()))


def bit_list(T, path, leaves, bvt):
    """assembled bits of the value of type T whose leaves are given as bit vectors; None where the layout leaves a bit unused"""
    from peak.assembler import Assembler
    T = strip_modifiers(T)
    if is_leaf(T):
        v = leaves[path]
        return [v[i] for i in range(v.size)] if isinstance(v, hwtypes.AbstractBitVector) else [v]
    A = Assembler(T)
    out = [None] * A.width
    if issubclass(T, (Sum, TaggedUnion)):
        ks = [k for k, F in _sub(T) if any(p[:len(path) + 1] == path + (k,) for p in leaves)]
        assert len(ks) == 1
        k = ks[0]
        lo, hi = A.tag_layout
        tag = A.assemble_tag(k, bvt)
        out[lo:hi] = [tag[i] for i in range(hi - lo)]
        items = [(k, T.field_dict[k])]
    else:
        items = _sub(T)
    for k, F in items:
        lo, hi = A.layout[k][:2]
        out[lo:hi] = bit_list(F, path + (k,), leaves, bvt)
    return out


def bits_of(T, path, leaves, bvt):
    """assembled bits (of family bit-vector type bvt) with unused bits zero"""
    zero = bvt[1](0)[0]
    return concat([zero if b is None else b for b in bit_list(T, path, leaves, bvt)], bvt)


def concat(bs, bvt):
    if bvt is SMTBitVector:
        import pysmt.shortcuts as smt
        parts = [smt.Ite(b.value, smt.BV(1, 1), smt.BV(0, 1)) for b in bs]
        r = parts[0]
        for p in parts[1:]:
            r = smt.BVConcat(p, r)
        return SMTBitVector[len(bs)](r)
    return bvt[len(bs)](list(bs))


def py_value(T, path, leaves):
    """Py value of type T whose leaves are given as Python-family bits"""
    from peak.assembler import Assembler
    T = strip_modifiers(T)
    if issubclass(T, hwtypes.AbstractBit):
        v = leaves[path]
        return T(v if isinstance(v, Bit) else v[0])
    if issubclass(T, hwtypes.AbstractBitVector):
        return T(leaves[path])
    if issubclass(T, Enum):
        return Assembler(T).disassemble(leaves[path])
    if issubclass(T, TaggedUnion):
        ks = [k for k, F in _sub(T) if any(p[:len(path) + 1] == path + (k,) for p in leaves)]
        assert len(ks) == 1, ks
        return T(**{ks[0]: py_value(T.field_dict[ks[0]], path + (ks[0],), leaves)})
    if issubclass(T, Sum):
        ks = [k for k, F in _sub(T) if any(p[:len(path) + 1] == path + (k,) for p in leaves)]
        assert len(ks) == 1, ks
        return T(py_value(T.field_dict[ks[0]], path + (ks[0],), leaves))
    return T(*[py_value(F, path + (k,), leaves) for k, F in _sub(T)])


def flat_outputs(T, out):
    """{output path: value} of one call"""
    T = strip_modifiers(T)
    vals = fam.as_tuple(out) if len(T.field_dict) > 1 or not isinstance(out, tuple) else out
    res = {}

    def go(F, path, v):
        F = strip_modifiers(F)
        if is_leaf(F):
            res[path] = v
        elif issubclass(F, (Sum, TaggedUnion)):
            raise NotImplementedError
        else:
            for k, G in _sub(F):
                go(G, path + (k,), v[k])
    for (k, F), v in zip(_sub(T), vals):
        go(F, (k,), v)
    return res


def smt_leaf(ctx_bits, T):
    return ctx_bits


def z3_leaf(name, T):
    """z3 variable of a leaf"""
    if issubclass(T, hwtypes.AbstractBit):
        return z3.Bool(name + ':1')
    return z3.BitVec(f'{name}:v{leaf_width(T)}', leaf_width(T))


def smt_sym(name, T):
    """SMT-family leaf (a Bit, or a bit vector; enums as their bits) named so that it meets z3_leaf"""
    import pysmt.shortcuts as smt
    if issubclass(T, hwtypes.AbstractBit):
        return SMTBit(smt.Symbol(name + ':1', smt.BOOL))
    return SMTBitVector[leaf_width(T)](smt.Symbol(f'{name}:v{leaf_width(T)}', smt.BVType(leaf_width(T))))


def run_smt(fc, in_t, leaves, famod, setup=None):
    """outputs {path: SMT value} of the SMT class on SMT leaves (path -> SMTBit/SMTBitVector)"""
    f = famod.SMTFamily()
    C = fc(f)
    obj = C()
    if setup is not None:
        setup(obj)
    vec = {p: (v.ite(SMTBitVector[1](1), SMTBitVector[1](0)) if isinstance(v, SMTBit) else v) for p, v in leaves.items()}
    args = {}
    for k, T in strip_modifiers(in_t).field_dict.items():
        ST = strip_modifiers(C.input_t.field_dict[k])
        sub = {p: v for p, v in vec.items() if p[0] == k}
        if fam.is_adt(strip_modifiers(T)):
            from peak.assembler.assembled_adt import AssembledADTMeta
            A = ST if isinstance(ST, AssembledADTMeta) else f.get_adt_t(ST)
            args[k] = A(bits_of(T, (k,), sub, SMTBitVector))
        elif issubclass(strip_modifiers(T), hwtypes.AbstractBit):
            args[k] = leaves[(k,)]
        else:
            args[k] = fam.leaf_in(strip_modifiers(T), SMTBitVector.get_family())(leaves[(k,)].value)
    return flat_outputs(C.output_t, obj(**args))


def z3out(v):
    v = fam.bits(v)
    return z3_of(v)


def leaf_valid(T, z):
    """z3 condition: the bits of a leaf are a member's encoding"""
    if isinstance(T, type) and issubclass(T, Enum):
        from peak.assembler import Assembler
        A = Assembler(T)
        return z3.Or(*[z == z3_of(A.assemble(m)) for m in T.enumerate()])
    return z3.BoolVal(True)


class Spec:
    """all candidate rules of one (architecture, operation) pair, each with its correctness formula over leaf variables"""

    def __init__(self, arch_fc, ir_fc, famod, constraints=None, boxes=None):
        """boxes: lib.boxes where the components contain black boxes (then 'for every function of the boxes')"""
        ibox = abox = None
        self.arch_in = arch_fc.Py.input_t
        self.ir_in = ir_fc.Py.input_t
        self.aforms = forms(self.arch_in)
        iforms = forms(self.ir_in)
        assert len(iforms) == 1
        self.ileaves = iforms[0]
        ao, io = forms(arch_fc.Py.output_t), forms(ir_fc.Py.output_t)
        assert len(ao) == 1 and len(io) == 1
        self.oleaves = ao[0], io[0]
        self.obind = bindings(ao[0], io[0])
        isym = {p: smt_sym('I.' + '.'.join(map(str, p)), T) for p, (T, c) in self.ileaves.items()}
        if boxes is None:
            iout = {p: z3out(v) for p, v in run_smt(ir_fc, self.ir_in, isym, famod).items()}
        else:
            iout, ibox = boxes.run(ir_fc, self.ir_in, isym, famod, 'IB')
        self.ivars = {p: z3_leaf('I.' + '.'.join(map(str, p)), T) for p, (T, c) in self.ileaves.items()}
        self.cands = []
        constraints = {p: [z3_of(v) for v in vs] for p, vs in (constraints or {}).items()}
        for fi, af in enumerate(self.aforms):
            asym = {p: smt_sym(f'A{fi}.' + '.'.join(map(str, p)), T) for p, (T, c) in af.items()}
            avars = {p: z3_leaf(f'A{fi}.' + '.'.join(map(str, p)), T) for p, (T, c) in af.items()}
            if boxes is None:
                aout = {p: z3out(v) for p, v in run_smt(arch_fc, self.arch_in, asym, famod).items()}
            else:
                aout, abox = boxes.run(arch_fc, self.arch_in, asym, famod, f'AB{fi}')
            for b in bindings(af, self.ileaves):
                if any(p in b for p in constraints):
                    continue
                for ob in self.obind:
                    eqs = z3.And(*[aout[q] == iout[p] for q, p in ob.items()])
                    if boxes is not None:
                        eqs = z3.Implies(boxes.consistent(ibox, abox), eqs)
                    eqs = z3.substitute(eqs, *[(avars[q], self.ivars[p]) for q, p in b.items()])
                    consts = [p for p, (T, c) in af.items() if c and p not in b]
                    free = [p for p, (T, c) in af.items() if not c and p not in b]
                    valid = z3.And(*[leaf_valid(af[p][0], avars[p]) for p in consts])
                    ok = [leaf_valid(af[p][0], avars[p]) for p in free]
                    ok += [leaf_valid(self.ileaves[p][0], v) for p, v in self.ivars.items()]
                    assume = ok + [z3.Or(*[avars[p] == v for v in vs]) for p, vs in constraints.items() if p in free]
                    choose = [z3.Or(*[avars[p] == v for v in vs]) for p, vs in constraints.items() if p in consts]
                    self.cands.append(dict(form=fi, bind=b, obind=ob, consts={p: avars[p] for p in consts},
                                           free={p: avars[p] for p in free}, valid=z3.And(valid, *choose),
                                           correct=z3.Implies(z3.And(*assume), eqs),
                                           all=list(self.ivars.values()) + [avars[p] for p in free]
                                           + (ibox.outs + abox.outs if boxes is not None else [])))

    def exists(self, c):
        """constants that make candidate c correct (a z3 model), or None; exact"""
        return efsmt.solve([c['valid']], [efsmt.Forall(c['all'], c['correct'])])


# ---------------------------------------------------------------- executing a rule
def operand(ctx, name, T):
    """arbitrary bits of one leaf; an enumeration ranges over its members"""
    T = strip_modifiers(T)
    if issubclass(T, hwtypes.AbstractBit):
        return ctx.bit(name)
    if issubclass(T, Enum):
        from peak.assembler import Assembler
        return Assembler(T).assemble(ctx.choice(name, list(T.enumerate())))
    return ctx.bv(name, T.size)


def call(fc, leaves):
    """outputs of a fresh Python-family object on leaf values"""
    T = fc.Py.input_t
    return flat_outputs(fc.Py.output_t, fc.Py()(**{k: py_value(F, (k,), leaves) for k, F in _sub(strip_modifiers(T))}))


def same_leaf(ctx, a, b):
    if isinstance(a, Enum) or isinstance(b, Enum):
        return type(a) is type(b) and a._value_ == b._value_
    return ctx.all(isinstance(a, type(b)) or isinstance(b, type(a)), ctx.iff(a, b) if isinstance(a, Bit) else
                   ctx.cond(a == b))


def check_rule(ctx, ans, rule, arch_fc, ir_fc, constraints=None):
    """the rule names a form of the architecture, routes all operands, and computes the operation"""
    from peak.mapper.utils import Unbound
    from lib.symex import EngineError
    constraints = constraints or {}      # {path: [bits]}
    A, I = arch_fc.Py.input_t, ir_fc.Py.input_t
    iforms = forms(I)
    ileaves = iforms[0]
    places = [q for p, q in rule.ibinding]
    form = [f for f in forms(A) if set(f) == set(places)]
    ans.check(len(form) == 1 and len(set(places)) == len(places), f'the rule assigns {sorted(map(str, places))}, no form of the inputs')
    form = form[0]
    routed = [p for p, q in rule.ibinding if isinstance(p, tuple)]
    ans.check(sorted(map(str, routed)) == sorted(map(str, ileaves)), f'operands routed: {routed}')
    outs = [(p, q) for p, q in rule.obinding if p is not Unbound]
    ans.check(sorted(str(p) for p, q in outs) == sorted(map(str, forms(ir_fc.Py.output_t)[0])), f'results routed: {outs}')
    iv = {p: operand(ctx, 'I.' + '.'.join(map(str, p)), T) for p, (T, c) in ileaves.items()}
    av = {}
    for p, q in rule.ibinding:
        T, const = form[q]
        if isinstance(p, tuple):
            ans.check(ileaves[p][0] == T, f'{p} of type {ileaves[p][0]} is routed to {q} of type {T}')
            av[q] = iv[p]
        elif p is Unbound:
            ans.check(not const, f'the instruction input {q} has no value')
            av[q] = operand(ctx, 'A.' + '.'.join(map(str, q)), T)
            if q in constraints:
                ctx.assume(ctx.any(*[ctx.cond(v == av[q]) for v in constraints[q]]))
        else:
            v = fam.bits(p) if not isinstance(p, (Bit, BitVector)) else p
            if issubclass(T, hwtypes.AbstractBit):
                ans.check(isinstance(v, Bit), f'{q} is given {type(v)}')
            else:
                ans.check(isinstance(v, BitVector) and v.size == leaf_width(T), f'{q} is given {type(v)}')
            if issubclass(T, Enum):
                from peak.assembler import Assembler
                ans.check(ctx.any(*[ctx.cond(v == Assembler(T).assemble(m)) for m in T.enumerate()]), f'{q} is given a value that is no member')
            if q in constraints:
                ans.check(ctx.any(*[ctx.cond(c == v) for c in constraints[q]]), f'{q} is given a value outside its constraint')
            av[q] = v
    try:
        got = call(arch_fc, av)
    except (EngineError, AssertionError):
        raise
    except Exception as e:
        ans.check(False, f'the architecture raised {type(e).__name__}: {e}')
        return
    want = call(ir_fc, iv)
    for p, q in outs:
        ans.check(same_leaf(ctx, got[q], want[p]), f'output {q} of the architecture differs from output {p} of the operation')


def constraint_bits(arch_fc, constraints):
    """{path: [Python-family bits]} of the constraints as the user writes them"""
    T = {p: t for f in forms(arch_fc.Py.input_t) for p, (t, c) in f.items()}
    return {p: [as_bits(T[p], v) for v in (vs if isinstance(vs, tuple) else (vs,))] for p, vs in constraints.items()}


def as_bits(T, v):
    """Python-family bits of a constraint value"""
    if issubclass(T, hwtypes.AbstractBit):
        return Bit(v)
    if issubclass(T, Enum):
        from peak.assembler import Assembler
        return Assembler(T).assemble(v) if isinstance(v, Enum) else BitVector[leaf_width(T)](v)
    return BitVector[leaf_width(T)](v)
