"""Shared pieces of the instruction-encoding checks (C01-C05)."""
import functools

import hwtypes
from hwtypes import BitVector, Bit
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion

from . import adts
from .runner import Scenario


def Asm(ver):
    if ver == 'v1':
        from peak.assembler.assembler import Assembler
    else:
        from peak.assembler2.assembler import Assembler
    return Assembler


def AADT(ver, magma=False):
    if ver == 'v1':
        from peak.assembler.assembled_adt import AssembledADT
    else:
        from peak.assembler2.assembled_adt import AssembledADT
    return AssembledADT


@functools.lru_cache(None)
def all_types(tier, seed):
    out = dict(adts.shapes())
    ex = adts.example_isas()
    ex.pop('!', None)
    out.update(ex)
    out.update(adts.random_types(seed, 30 if tier == 'quick' else 300))
    return out


def is_leaf(T):
    return issubclass(T, (hwtypes.AbstractBit, hwtypes.AbstractBitVector))


def as_bits(v, T=BitVector):
    """a Bit as a one-bit vector"""
    return T[1](v) if isinstance(v, Bit) else v


def scen(prop, types, versions, fn, **kw):
    """one scenario per type and encoder version; fn(ctx, ver, T)"""
    out = []
    for name, T in types.items():
        for ver in versions:
            out.append(Scenario(f'{ver}/{name}', functools.partial(fn, ver=ver, T=T), **kw))
    return out


def scen_groups(groups, versions, fn, **kw):
    """one scenario per group of types: which type is one of the explored choices"""
    def run(ctx, ver, ts):
        fn(ctx, ver, ts[ctx.choice('type', range(len(ts)))])
    return [Scenario(f'{ver}/enums.{g}/{fn.__name__}', functools.partial(run, ver=ver, ts=ts), **kw)
            for g, ts in groups.items() for ver in versions]


def spec_valid(ctx, ver, T, bits):
    """z3 condition: `bits` is the encoding of some value of T (padding ignored), from member
    encodings, the published layout and the published tags - not from the validity code"""
    A = Asm(ver)(T)
    if is_leaf(T):
        return True
    if issubclass(T, Enum):
        return ctx.any(*[ctx.same_value(bits, A.assemble(m)) for m in T.enumerate()])
    if issubclass(T, (Product, Tuple)):
        return ctx.all(*[spec_valid(ctx, ver, F, part(ver, A, bits, k)) for k, F in T.field_dict.items()])
    return ctx.any(*[ctx.all(tag_is(ctx, ver, A, bits, k), spec_valid(ctx, ver, F, part(ver, A, bits, k)))
                     for k, F in T.field_dict.items()])


def part(ver, A, bits, k):
    if ver == 'v1':
        lo, hi = A.layout[k]
        return bits[lo:hi]
    return A.extract(bits, k)


def tag_is(ctx, ver, A, bits, k):
    if ver == 'v1':
        lo, hi = A.tag_layout
        return ctx.same_value(bits[lo:hi], A.assemble_tag(k, BitVector))
    return A.match(bits, k)


def has_zero(T):
    """some part of T is encoded in zero bits (SMT-LIB has no zero-width vectors)"""
    if is_leaf(T):
        return False
    if issubclass(T, Enum):
        return len(T.field_dict) == 1 and not (isinstance(next(iter(T.enumerate()))._value_, int)
                                               and next(iter(T.enumerate()))._value_ > 0)
    if issubclass(T, Sum) and len(T.field_dict) == 1:
        return True
    return any(has_zero(F) for F in T.field_dict.values())
