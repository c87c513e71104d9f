from hwtypes import BitVector, new
from lib import enc

META = dict(
    explanation='Both instruction encoders are executed on a symbolic value of each instruction type (bit-vector leaves '
                'are solver variables, enum members and union variants are forked) and on a symbolic opcode of the full '
                'encoded width.',
    bounds='types: 55 hand-picked shapes, 14 shipped ISAs, seeded random types (30 quick, 300 thorough, nesting <= 3, '
           '<= 150 variant combinations, <= 60 bits), all enums with explicit values in 0..7, and all with any explicit '
           'values in 0..4 plus 1-3 automatic members (order seeded); all values of each type, except that products with more than 300 '
           'variant combinations (pe1) vary one field at a time (the others at their first or last variant); encoded with the default and a user-defined vector type',
    assumptions=['sums whose members are subtypes of one another are excluded (ambiguous by construction)'],
    level='other')

MyBV = new(BitVector, name='MyBV')


def roundtrip(ctx, ver, T):
    asm = enc.Asm(ver)(T)
    v = ctx.value(T, 'v', limit=300)
    op = asm.assemble(v)
    ctx.check(type(op) is BitVector[asm.width], f'encoding has type {type(op)}')
    ctx.check(asm.is_valid(op), 'encoding of a value is not accepted as valid')
    w = asm.disassemble(op)
    ctx.check(isinstance(w, T), f'decoded to {type(w)}')
    ctx.check(ctx.same(w, v), 'decode(encode(v)) differs from v')
    op2 = asm.assemble(v, MyBV)
    ctx.check(type(op2) is MyBV[asm.width], f'encoding with another vector type has type {type(op2)}')
    ctx.check(ctx.same_value(op, op2), 'the encoding depends on the vector type')
    w2 = asm.disassemble(op2) if not enc.is_leaf(T) else v
    ctx.check(ctx.same(w2, v), 'decode(encode(v)) differs from v for another vector type')


def reencode(ctx, ver, T):
    """every accepted opcode decodes to a value whose encoding decodes to the same value"""
    asm = enc.Asm(ver)(T)
    op = BitVector[asm.width](ctx.raw('op', asm.width))
    ctx.assume(asm.is_valid(op))
    v = asm.disassemble(op)
    ctx.check(isinstance(v, T), f'decoded to {type(v)}')
    op2 = asm.assemble(v)
    ctx.check(asm.is_valid(op2), 're-encoding is not valid')
    ctx.check(ctx.same(asm.disassemble(op2), v), 'decode(encode(decode(op))) differs')


def scenarios(tier, seed):
    ts = enc.all_types(tier, seed)
    out = enc.scen('C01', ts, ['v1', 'v2'], roundtrip, max_paths=4000)
    small = {k + '/opcodes': T for k, T in ts.items() if enc.adts.count(T) <= 300}
    out += enc.scen('C01', small, ['v1', 'v2'], reencode, max_paths=4000)
    fam = enc.adts.enum_family(tier, seed)
    out += enc.scen_groups(fam, ['v1', 'v2'], roundtrip, max_paths=4000)
    out += enc.scen_groups(fam, ['v1', 'v2'], reencode, max_paths=4000)
    return out
