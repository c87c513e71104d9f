"""Instruction-set types the encoding checks quantify over."""
import random
import types

from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, new_instruction

_n = [0]


def enum(name, **members):
    """members: value or None for an automatically numbered one"""
    ns = {k: (new_instruction() if v is None else v) for k, v in members.items()}
    return type(Enum)(name, (Enum,), ns, cache=False)


def product(name, **fields):
    return Product.from_fields(name, fields, cache=False)


def tagged(name, **fields):
    return TaggedUnion.from_fields(name, fields, cache=False)


def shapes():
    """hand-picked structures: every constructor, every numbering style, nesting, repeated types"""
    BV, S, U = BitVector, SIntVector, UIntVector
    out = {}
    E2 = enum('E2', a=0, b=1)
    Eauto = enum('Eauto', add=None, sub=None, mul=None)
    Eauto5 = enum('Eauto5', a=None, b=None, c=None, d=None, e=None)
    Esparse = enum('Esparse', a=1, b=6, c=13)
    Egap = enum('Egap', a=0, b=1, c=2, d=4, e=5)
    Egap2 = enum('Egap2', a=1, b=2, c=3, d=4, e=8, f=9, g=10, h=11, i=14)
    Eonehot = enum('Eonehot', a=1, b=2, c=4, d=8)
    Eonehot0 = enum('Eonehot0', z=0, a=1, b=2, c=4)
    Eonehot_part = enum('EonehotPart', a=1, b=4, c=8, d=16)
    Eonehot_few = enum('EonehotFew', a=1, b=32, c=64)
    Emid = enum('Emid', a=2, b=3, c=4)
    Eub = enum('Eub', a=5, b=6, c=7)
    Elb = enum('Elb', a=0, b=1, c=2, d=3, e=4)
    Emix = enum('Emix', a=None, b=0, c=None, d=3, e=None)
    Eone = enum('Eone', only=1)
    Ezero = enum('Ezero', only=0)
    Eeven = enum('Eeven', a=0, b=2, c=4, d=6)
    Egap3 = enum('Egap3', a=0, b=1, c=2, d=3, e=6, f=7, g=8, h=12)
    Egap4 = enum('Egap4', a=3, b=4, c=5, d=9, e=10, f=15)
    for E in (E2, Eauto, Eauto5, Esparse, Egap, Egap2, Eonehot, Eonehot0, Eonehot_part, Eonehot_few, Emid, Eub, Elb,
              Emix, Eone, Ezero, Eeven, Egap3, Egap4):
        out['enum.' + E.__name__] = E
    out['leaf.Bit'] = Bit
    out['leaf.BV8'] = BV[8]
    out['leaf.BV1'] = BV[1]
    out['leaf.S6'] = S[6]
    out['leaf.U5'] = U[5]
    P1 = product('P1', a=BV[4], b=Bit, c=Eauto)
    out['product.P1'] = P1
    out['product.leaf_first_bit'] = product('Pb', a=Bit, b=BV[3], c=Bit)
    out['product.signed'] = product('Psigned', a=S[4], b=BV[3], c=S[5])
    out['product.unsigned'] = product('Puns', a=U[4], b=S[3], c=U[2], d=Bit)
    out['product.one'] = product('Pone', a=BV[5])
    out['product.oneenum'] = product('Poneenum', a=Esparse)
    out['product.same'] = product('Psame', a=BV[3], b=BV[3], c=BV[3])
    out['product.enums'] = product('Penums', x=Esparse, y=Egap, z=Emix)
    out['product.nested'] = product('Pnest', p=P1, q=P1, r=BV[2])
    out['product.nested_sparse'] = product('Pnest2', q=product('Pin', e=Egap, f=Bit), r=S[3], t=Esparse)
    out['product.wide'] = product('Pwide', a=BV[16], b=BV[32], c=BV[7], d=S[16])
    out['tuple.two'] = Tuple[BV[3], Bit]
    out['tuple.same'] = Tuple[BV[4], BV[4], S[4]]
    out['tuple.nested'] = Tuple[Tuple[Bit, BV[2]], P1, Eauto]
    out['tuple.one'] = Tuple[BV[4]]
    out['sum.bv'] = Sum[BV[3], BV[5]]
    out['sum.signed'] = Sum[S[4], BV[6], Bit]
    S3 = Sum[BV[8], P1, Eauto]
    out['sum.mixed'] = S3
    out['sum.one'] = Sum[BV[4]]
    out['sum.enums'] = Sum[Esparse, Egap, Eauto]
    out['sum.nested'] = Sum[S3, BV[4], Tuple[Bit, BV[3]]]
    out['sum.five'] = Sum[BV[1], BV[2], BV[3], BV[4], BV[5]]
    out['tagged.same'] = tagged('Tsame', a=BV[4], b=BV[4], c=BV[4])
    T1 = tagged('T1', a=BV[4], b=BV[6], c=Eauto, d=BV[4])
    out['tagged.T1'] = T1
    out['tagged.bits'] = tagged('Tbits', x=Bit, y=Bit)
    out['tagged.signed'] = tagged('Tsigned', x=S[5], y=U[3], z=S[5], w=Bit, v=BV[2])
    out['tagged.one'] = tagged('Tone', x=BV[3])
    out['tagged.prods'] = tagged('Tprods', p=P1, q=product('P2', a=Bit, b=BV[9]), r=Esparse)
    out['tagged.order'] = tagged('Tord', z=BV[2], a=BV[5], m=Bit)
    out['tagged.five'] = tagged('Tfive', a=Egap, b=Esparse, c=Egap, d=S[3], e=Egap)
    out['deep'] = product('Deep', op=Sum[product('A', f=T1, g=Bit), product('B', h=Esparse, i=BV[3])], m=T1, s=S[2])
    out['deep2'] = Tuple[tagged('D2', u=Sum[BV[2], Egap], v=Tuple[Eone, BV[3]]), Eonehot]
    # zero-width parts: enums with a single member numbered 0
    out['zero.product'] = product('Zp', a=BV[3], e=Ezero, b=Bit)
    out['zero.product_end'] = product('Zpe', a=BV[3], e=Ezero)
    out['zero.product_start'] = product('Zps', e=Ezero, a=BV[3])
    out['zero.tagged'] = tagged('Zt', a=BV[3], e=Ezero)
    out['zero.sum'] = Sum[BV[2], Ezero]
    out['zero.tuple'] = Tuple[Ezero, BV[2], Ezero]
    return out


def rand_enum(rng, name):
    kind = rng.choice(['auto', 'explicit', 'mixed', 'ranges', 'onehot'])
    n = rng.randint(1, 6)
    names = ['m%d' % i for i in range(n)]
    if kind == 'auto':
        vals = [None] * n
    elif kind == 'onehot':
        vals = [1 << b for b in rng.sample(range(6), n)]
    elif kind == 'ranges':
        pool = []
        lo = rng.randint(0, 2)
        while len(pool) < n:
            for _ in range(rng.randint(1, 4)):
                pool.append(lo)
                lo += 1
            lo += rng.randint(1, 3)
        vals = pool[:n]
    else:
        vals = rng.sample(range(24), n)
        if kind == 'mixed':
            vals = [None if rng.random() < 0.4 else v for v in vals]
    rng.shuffle(vals)
    return enum(name, **dict(zip(names, vals)))


def rand_type(rng, depth, tag):
    _n[0] += 1
    name = f'R{tag}_{_n[0]}'
    k = rng.choice(['leaf', 'enum', 'product', 'tuple', 'sum', 'tagged'] if depth else ['leaf', 'leaf', 'enum'])
    if k == 'leaf':
        return rng.choice([Bit, BitVector[rng.randint(1, 9)], SIntVector[rng.randint(1, 7)],
                           UIntVector[rng.randint(1, 7)]])
    if k == 'enum':
        return rand_enum(rng, name)
    n = rng.randint(1, 4)
    subs = [rand_type(rng, depth - 1, tag) for _ in range(n)]
    if len(subs) > 1 and rng.random() < 0.4:
        subs[-1] = subs[0]
    if k == 'sum' and any(a is not b and (issubclass(a, b) or issubclass(b, a)) for a in subs for b in subs):
        return rand_type(rng, depth, tag)          # subtype-overlapping sums are ambiguous by construction
    names = rng.sample(['alpha', 'beta', 'op', 'rs1', 'rd', 'imm', 'zz', 'k0'], len(subs))
    if k == 'product':
        return product(name, **dict(zip(names, subs)))
    if k == 'tuple':
        return Tuple[tuple(subs)]
    if k == 'tagged':
        return tagged(name, **dict(zip(names, subs)))
    return Sum[tuple(subs)]


def enum_family(tier='quick', seed=1):
    """every enum with explicit values below 8, and every set of explicit values below 5 joined by one to three
    automatically numbered members, listed in seeded orders; {group: [types]}"""
    rng = random.Random(seed)
    groups = {}
    for mask in range(1, 256):
        vals = [v for v in range(8) if mask >> v & 1]
        rng.shuffle(vals)
        groups.setdefault(f'explicit.{mask // 64}', []).append(enum(f'X{mask}', **{f'm{i}': v for i, v in enumerate(vals)}))
    for mask in range(32):
        for autos in (1, 2, 3):
            vals = [v for v in range(5) if mask >> v & 1] + [None] * autos
            for r in range(1 if tier == 'quick' else 6):
                rng.shuffle(vals)
                groups.setdefault(f'mixed.{autos}.{r}', []).append(
                    enum(f'M{mask}_{autos}_{r}', **{f'm{i}': v for i, v in enumerate(vals)}))
    if tier != 'quick':
        for k in range(40):
            groups[f'wide.{k}'] = [enum(f'W{k}_{j}', **{f'm{i}': v for i, v in enumerate(rng.sample(range(64), rng.randint(1, 9)))})
                                   for j in range(40)]
    return groups


def count(T):
    """number of variant/enum combinations (paths a value of T forks into)"""
    import hwtypes
    if issubclass(T, (hwtypes.AbstractBit, hwtypes.AbstractBitVector)):
        return 1
    if issubclass(T, Enum):
        return len(T.field_dict)
    if issubclass(T, Sum):
        return sum(count(F) for F in T.field_dict.values())
    n = 1
    for F in T.field_dict.values():
        n *= count(F)
    return n


def width_bound(T):
    import hwtypes
    if issubclass(T, hwtypes.AbstractBit):
        return 1
    if issubclass(T, hwtypes.AbstractBitVector):
        return T.size
    if issubclass(T, Enum):
        return 6
    if issubclass(T, Sum):
        return max(width_bound(F) for F in T.field_dict.values()) + 3
    return sum(width_bound(F) for F in T.field_dict.values())


def random_types(seed, n, max_count=150, depth=3):
    rng = random.Random(seed)
    out = {}
    while len(out) < n:
        T = rand_type(rng, depth, seed)
        if 1 < count(T) <= max_count and not issubclass(T, Enum) and width_bound(T) <= 60:
            out[f'random.{seed}.{len(out)}'] = T
    return out


def example_isas():
    """the instruction sets shipped with the repository"""
    import importlib
    from hwtypes import BitVector
    fam = BitVector.get_family()
    out = {}

    def add(name, mod, attr=None, fc=None, pick=None):
        try:
            m = importlib.import_module(mod)
            t = getattr(m, attr or fc)
            if fc:
                t = t.Py if hasattr(t, 'Py') else t(fam)
                if pick is not None:
                    t = t[pick] if isinstance(pick, int) else getattr(t, pick)
            out['isa.' + name] = t
        except Exception as e:           # an example that does not import is not our subject
            out.setdefault('!', []).append((name, repr(e)))
    add('pe5', 'examples.demo_pes.pe5.isa', 'INST')
    add('arm', 'examples.arm.isa', 'Inst')
    add('pico', 'examples.pico.isa', 'Inst')
    add('min', 'examples.min_pe.isa', fc='ISA_fc', pick=2)
    add('pdp8', 'examples.pdp8.isa', 'Inst')
    add('alu', 'examples.alu.isa', 'Inst')
    add('pe1', 'examples.pe1.isa', 'Inst')
    add('pe4', 'examples.demo_pes.pe4.isa', 'INST')
    for r in ('riscv', 'riscv_ext', 'riscv_m', 'sum_pe', 'tagged_pe', 'reg_file'):
        add(r, f'examples.{r}.isa', fc='ISA_fc', pick='Inst')
    return out
