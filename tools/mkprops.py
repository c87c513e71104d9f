"""writes /verif/properties.jsonl (the readable source of the property list)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


ENC = 'peak/assembler/assembler.py peak/assembler/utils.py peak/assembler2/assembler.py'
prop('C01', 'Encoding an instruction and decoding it again is the identity',
     'For every instruction type built from enums, products, tuples, sums, tagged unions and bit-vector fields (signed and '
     'unsigned included), encoding any value gives a bit vector of exactly the published width, and decoding that bit vector '
     'gives back an equal value; hence two different values never share an encoding. This holds for both encoder generations.',
     'inputs programs', 'all instruction types in the shape family, all values of every leaf, both encoders',
     'Tests round-trip the enumerable values of a few hand-written types with tiny leaves; value and type space are unbounded.',
     ENC, [('per-kind assembler closures', 'peak/assembler/assembler.py _product/_sum/_enum/_tuple/_tagged_union'),
           ('field allocation', 'peak/assembler2/assembler.py')],
     ['assemble / disassemble results, width'])
prop('C02', 'An opcode is accepted exactly when some value encodes to it',
     'The validity predicate of an instruction type, evaluated on any bit pattern in the Python and in the SMT family, is true '
     'exactly for the patterns that are the encoding of some value (bits that the layout leaves unused are ignored), the decoder '
     'rejects the others with an error, and no answer depends on which other types were used before.',
     'inputs programs histories', 'all bit patterns of the width, all types of the shape family, either order of use of two types',
     'Tests evaluate validity on a handful of opcodes of one type; the set of bit patterns is exponential in the width and the '
     'dependence on earlier types needs a history.',
     ENC, [('validity closures', 'peak/assembler/assembler.py, peak/assembler2/assembler.py is_valid'),
           ('validator cache', 'peak/assembler/utils.py')],
     ['is_valid on Py and SMT bit vectors', 'disassemble / disassemble_tag errors'])
prop('C03', 'The published layout is where the encoder puts every field',
     'For every instruction type, each field lies at the bit range its published layout names, fields of one product do not '
     'overlap each other, alternatives of one sum do not overlap the tag, all ranges lie inside the width, extracting a field from '
     'an encoded value gives the encoding of that field, and building the encoder twice gives the same layout.',
     'inputs programs', 'all values and types of the shape family; all nested paths',
     'Tests compare fixed layouts for two ISAs with a golden table.',
     ENC + ' peak/assembler/assembler_util.py peak/assembler2/assembler_util.py',
     [('layout tables', 'assembler.layout / tag_layout / sub'), ('extract, match', 'peak/assembler2/assembler.py')],
     ['layout, sub, tag_layout, extract, match, generated text tables'])
prop('C04', 'A value built in assembled form behaves like the value it stands for',
     'An assembled value constructed from a plain value, from its fields, or from raw bits yields the same bits; reading a field, '
     'a tuple element or a sum alternative, and the match flag of an alternative, agrees with the plain value, in every family, '
     'and constructing a sum alternative leaves unused bits zero.',
     'inputs programs', 'all values and types of the shape family; constructors with the leaves in the Py and SMT families',
     'Tests build a few values of fixed types; field interactions (padding, signed leaves, nested sums) are input dependent.',
     'peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py',
     [('from_fields, __getattr__, __getitem__, match', 'peak/assembler*/assembled_adt.py')],
     ['bits of the assembled value, value of fields and match flags'])
prop('C05', 'Equality of assembled values is equality of what they denote',
     'Comparing an assembled value with another assembled value, with a plain value or with raw bits gives a bit of the right '
     'family that is true exactly when both denote the same value, inequality is its negation, equal values hash alike, and '
     'assembled types are equal exactly when they assemble the same type the same way.',
     'inputs programs', 'all pairs of values of every type in the shape family; Py and SMT families',
     'Tests compare a few concrete values.', 'peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py',
     [('__eq__, __ne__, __hash__', 'peak/assembler*/assembled_adt.py')], ['results of ==, != and hash'])
prop('C06', 'The field-packing encoder is injective, fits its size and honours order',
     'Packing any instruction value into an integer word, in either field order, gives a non-negative word that fits the computed '
     'size (plus its declared bit offset), from which every field and sum tag can be read back at the position implied by the '
     'field order; different values give different words.',
     'inputs programs', 'all values of product/sum/enum/bit-vector types with declared tags, offsets and both orders',
     'Tests encode a few words of one hand-written ISA.', 'peak/bitfield.py',
     [('size, sumsize, encode, instkey', 'peak/bitfield.py')], ['encode(value), size(type)'])
prop('C07', 'The generated legacy assembler round-trips every instruction',
     'For every instruction type it supports, the generated assembler and disassembler are inverse on all values, the reported width '
     'is the width of every opcode, the reported layout names the bits a field occupies, and constants other than the declared one '
     'are rejected.',
     'inputs programs', 'all values and all types of the shape family restricted to enums, products, sums, vectors and constants',
     'Tests round-trip the enumerable part of three ISAs.', 'peak/auto_assembler.py peak/rtl_utils.py',
     [('generate_assembler', 'peak/auto_assembler.py')], ['assembler(inst), disassembler(opcode), width, layout'])
prop('C08', 'One program computes the same in every executable family',
     'A program written once against a family and run directly, after the static-single-assignment rewriting, or symbolically gives '
     'the same outputs and the same next state for every input, for control flow, early returns, nested ifs, instance state, '
     'sub-components and instruction decoding.',
     'inputs programs histories', 'all inputs (bounded widths) of a corpus of programs, all instructions of the example ISAs, random '
     'straight-line/branching programs, sequences of up to 3 calls',
     'Tests run a few vectors through one family at a time; agreement is a statement over every input and program.',
     'peak/family.py peak/features.py peak/peak.py',
     [('family.assemble and the rewriting passes', 'peak/family.py'), ('I/O type preservation', 'peak/family.py')],
     ['outputs and state of the Py, PyX and SMT instances'])
prop('C09', 'A register returns the last value written, whatever the history',
     'After any sequence of calls a register holds its initial value until the first enabled write and the most recently enabled '
     'value afterwards, each call returns the value before the call, peeking at the previous value changes nothing, instances are '
     'independent, and all families and the deprecated constructors agree.',
     'inputs histories configurations', 'all histories up to the step bound with symbolic data and enables; bit, vector and ADT types; '
     'with and without enable; all initial values',
     'Tests drive one short fixed history.', 'peak/family.py peak/register.py',
     [('gen_register, register cache', 'peak/family.py'), ('deprecated constructors', 'peak/register.py')],
     ['return value of each call, prev()'], [('value', 'stored value', 'peak/family.py')])
prop('C10', 'A memory returns the last value written to the addressed cell',
     'After any sequence of reads and writes, a read returns the most recent data written to that address or else its declared '
     'initial content (default fill beyond the given contents), a write disturbs no other cell, a disabled write disturbs nothing, '
     'and a read-only memory never changes.',
     'inputs histories', 'all address/data/enable histories up to the step bound, small depths and widths, all initial contents',
     'Tests write and read a handful of cells once.', 'peak/memory.py peak/register.py',
     [('ROM/RAM call', 'peak/memory.py'), ('backing registers', 'peak/register.py')], ['return value of each call'],
     [('mem', 'list of registers', 'peak/memory.py')])
prop('C11', 'Attribute registers read and write like plain attributes',
     'Assigning an attribute that holds an attribute register stores the value into the register, reading it yields the last assigned '
     'value (initially the declared one), a value of the wrong type is refused and changes nothing, plain attributes behave as in '
     'ordinary Python, and instances do not share state.',
     'inputs histories', 'all histories of assignments and reads up to the step bound, all values, several attributes and instances',
     'Tests do one read and one write.', 'peak/peak.py peak/family.py',
     [('__getattribute__/__setattr__ protocol', 'peak/peak.py'), ('gen_attr_register', 'peak/family.py')],
     ['attribute reads after each step'])
prop('C12', 'A family closure yields the class of the requested family, once',
     'Asking a family closure for the class of a family always yields the class built for that family, the same class object every '
     'time for equal requests, whatever other families were requested before and in whatever order; families compare equal only '
     'when they build the same thing, and equal families hash alike.',
     'histories configurations', 'all request orders up to the bound over the five families and different family options',
     'Tests request families in one order.', 'peak/features.py peak/family.py',
     [('family_closure cache', 'peak/features.py'), ('family equality and hash', 'peak/family.py')],
     ['class returned for each request, family == and hash'], [('cache', 'requests already built', 'peak/features.py')])
prop('C13', 'Declared interface types are the ones a component exposes and enforces',
     'The input type of a component lists exactly its call parameters in order with their declared types, the output type exactly its '
     'declared results, missing annotations are refused, with checking on a component as written (not rewritten by a family) refuses a result of the '
     'wrong type or count and passes any correct result through unchanged, and every family preserves these types.',
     'inputs programs', 'all input values and all right/wrong result combinations of a corpus of signatures',
     'Tests check a few signatures and one wrong result.', 'peak/features.py peak/peak.py peak/family.py',
     [('gen_input_t, gen_output_t, typecheck, name_outputs', 'peak/features.py')],
     ['input_t, output_t, results and errors of a call'])
prop('C14', 'The generated circuit computes what the Python model computes',
     'For every input, and for stateful programs from every state reachable in the step bound, the hardware generated from a program '
     'produces the outputs and next state of the Python model on the encoded instruction, and wrapping a circuit with an instruction '
     'disassembler feeds each field the bits its layout names.',
     'inputs programs histories', 'all inputs of the corpus programs with bounded widths; bounded number of cycles',
     'Tests simulate a few vectors through the RTL.', 'peak/family.py peak/assembler/assembled_adt.py peak/rtl_utils.py',
     [('MagmaFamily.assemble', 'peak/family.py'), ('MagmaADT', 'peak/assembler/assembled_adt.py'),
      ('wrap_with_disassembler', 'peak/rtl_utils.py')], ['the compiled netlist'])
prop('C15', 'Every rewrite rule the mapper returns is correct for all inputs',
     'Whatever answer the solver gives, a rewrite rule returned for an operation and an architecture makes the architecture compute the '
     'operation: with the rule\'s constants in place, all bound inputs routed and all remaining free inputs arbitrary, every bound '
     'output equals the operation\'s output for every input, and the constants form a valid instruction.',
     'inputs programs configurations', 'all solver answers, all operand values, corpus of operations and architectures, both formula '
     'styles and index encodings',
     'Tests verify the one rule the solver happens to return.', 'peak/mapper/mapper.py peak/mapper/utils.py '
     'peak/mapper/formula_constructor.py peak/mapper/index_var.py',
     [('IRMapper formula', 'peak/mapper/mapper.py'), ('rule extraction', 'peak/mapper/mapper.py rr_from_solver')],
     ['the rule returned by solve'])
prop('C16', 'The mapper finds a rule whenever one exists',
     'If some choice of instruction constants, input routing and output routing allowed by the binding rules makes the architecture '
     'compute the operation for all inputs, the mapper returns a rule; it reports that there is none only when none exists, with '
     'either formula style, either index encoding and either solving strategy.',
     'inputs programs configurations', 'all constants and routings for the corpus of operations and architectures',
     'Tests check solvability for a few known-mappable operations; absence of a rule is a universally quantified claim.',
     'peak/mapper/mapper.py peak/mapper/utils.py peak/mapper/index_var.py',
     [('binding enumeration', 'peak/mapper/utils.py create_bindings'), ('formula', 'peak/mapper/mapper.py')],
     ['solve() result'])
prop('C17', 'Path constraints restrict what the mapper may assume and choose',
     'With constraints on architecture inputs, a returned rule fixes constrained instruction inputs to one of the allowed values and is '
     'correct for every allowed value of the constrained data inputs, a rule is found whenever one exists under the constraints, and '
     'constraints on unknown inputs are refused.',
     'inputs programs configurations', 'all solver answers and operand values; constraint sets on constant and data inputs',
     'Tests try two constraints.', 'peak/mapper/mapper.py',
     [('path_constraints handling', 'peak/mapper/mapper.py ArchMapper, IRMapper, rr_from_solver')], ['solve() result, verify()'])
prop('C18', 'Verifying a rewrite rule is exact and its counterexample is genuine',
     'Verifying a rule reports success exactly when the rule is correct for all inputs; otherwise it returns input values on which the '
     'architecture and the operation really produce different outputs. A rule with an invalid constant or an unset instruction '
     'input is refused.',
     'inputs programs', 'correct and incorrect rules over the corpus, all operand values',
     'Tests verify a few correct rules and one wrong one.', 'peak/mapper/mapper.py',
     [('verify, build_inputs', 'peak/mapper/mapper.py RewriteRule')], ['verify() result'])
prop('C19', 'A rule routes every input to exactly the place its binding names',
     'Building the inputs of an operation and an architecture from a rule puts each operand at every bound place, each free input at its '
     'place, and each constant at its place, in every family; missing or extra inputs are refused.',
     'inputs programs', 'all operand values and rules over nested product, tuple, sum and tagged-union inputs',
     'Tests build inputs for two rules.', 'peak/mapper/mapper.py peak/mapper/utils.py',
     [('build_inputs', 'peak/mapper/mapper.py'), ('SimplifyBinding', 'peak/mapper/utils.py')], ['build_inputs result'])
prop('C20', 'A serialized rewrite rule reads back as the same rule',
     'Serializing a rule and reading it back, also through JSON text, gives a rule with the same bindings, the same constants and the '
     'same behaviour, whatever constants, unbound places and paths it contains.',
     'inputs programs', 'all constant values of every bound place; rules over nested types, bits and vectors',
     'Tests serialize two rules.', 'peak/mapper/mapper.py',
     [('serialize_bindings, read_serialized_bindings', 'peak/mapper/mapper.py')], ['bindings of the rule read back'])
prop('C21', 'Decomposing an instruction into forms loses and invents nothing',
     'The forms of an assembled type partition its valid values: every valid value satisfies the tag decisions of exactly one form, the '
     'form rebuilt from the free leaves of that value is that value, and decomposing a given value yields its own leaves and tags.',
     'inputs programs', 'all values of the types of the shape family with sums, tagged unions, products and tuples nested',
     'Tests check path tables and counts of forms for a few types.', 'peak/mapper/utils.py',
     [('SMTForms', 'peak/mapper/utils.py')], ['forms, varmap, value'])
prop('C22', 'Black boxes are uninterpreted but functional, and their hooks are faithful',
     'A black box returns exactly the outputs set for it and reports exactly the inputs of its last call, refuses calls before outputs '
     'are set and with the wrong arguments, every black box in a hierarchy is found at its path at any time, and a rule over black '
     'boxes is accepted exactly when it holds for every function the boxes could compute.',
     'inputs programs histories', 'all input/output values, hierarchies changed between queries, all functions of the boxes',
     'Tests use three fixed hierarchies and values.', 'peak/black_box.py peak/mapper/mapper.py',
     [('create_call, _set_outputs, _get_inputs, get_black_boxes', 'peak/black_box.py'), ('update_with_bb', 'peak/mapper/mapper.py')],
     ['returned outputs, recorded inputs, paths found, verify()/solve()'],
     [('_input_vals/_output_vals', 'last call and configured outputs', 'peak/black_box.py')])
prop('C23', 'The refinement loop answers only what the quantified formula implies',
     'The exists-forall refinement loop returns a solution only if that choice satisfies the formula for all universally quantified '
     'values, reports unsatisfiable only if no choice does, and otherwise raises its iteration-limit error - never when the limit '
     'lets every choice be tried once - whatever models the underlying solver returns and whatever initial vectors are used.',
     'inputs schedules configurations', 'all solver answer sequences within the loop bound, all iteration limits and initial vectors of '
     'the configured range, symbolic and corpus formulas',
     'Tests follow the one sequence of models z3 produces.', 'peak/mapper/mapper.py',
     [('external_loop_solve, initial vectors', 'peak/mapper/mapper.py')], ['result of the loop'])
prop('C24', 'A multi-instruction rule computes the operation',
     'Every solution returned for an operation and N architecture instructions is correct: executing the N instructions with the '
     'reported instructions and routing, free inputs arbitrary, yields the operation\'s outputs for every input; and a solution is '
     'found whenever one exists within the binding rules.',
     'inputs programs configurations', 'all solver answers and operand values for a corpus of operations, N up to 2 (3 thorough)',
     'Tests look at one printed answer.', 'peak/mapper/multi.py peak/mapper/index_var.py',
     [('Multi formula', 'peak/mapper/multi.py')], ['the reported routing and instructions'])
prop('C25', 'Floating-point operations use the rounding mode the instruction names',
     'For every operand and each of the five rounding modes, a floating-point component applies its operation at the IEEE rounding '
     'mode the instruction names to its operands in order, in every family and in the fixed-mode variants; conversions between '
     'instruction rounding modes, their codes and library rounding modes are mutually inverse.',
     'inputs configurations', 'all operand bit patterns (operation itself uninterpreted), all modes, all operations, several formats',
     'Tests run two operations at one rounding mode.', 'peak/float.py',
     [('float_lib_gen', 'peak/float.py'), ('rounding mode maps', 'peak/float.py')], ['the operation applied and its operands'])
prop('C26', 'An instruction added to an IR computes the function it was given',
     'Adding an instruction with an interface and a function yields a component with exactly those inputs and outputs in order, whose '
     'call returns the function applied to the operands in order for every input in every family; a name can be used only once, and '
     'adding instructions never alters earlier ones.',
     'inputs programs histories', 'all operand values; interfaces of 1 to 4 inputs and outputs; sequences of additions',
     'Tests add a few instructions and run one vector.', 'peak/ir.py',
     [('add_peak_instruction', 'peak/ir.py')], ['input_t, output_t and call results of the added instruction'],
     [('instructions', 'name to component', 'peak/ir.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
