#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='model_checking', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe))
RD, WR = 'src/reader.rs', 'src/writer.rs'
DR, DW, DM, DS = 'deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'deku-derive/src/lib.rs', 'deku-derive/src/macros/deku_size.rs'
PRIM = 'src/impls/primitive.rs'
CONTS = ['src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/slice.rs', 'src/impls/boxed.rs', 'src/impls/arc.rs', 'src/impls/tuple.rs', 'src/impls/option.rs', 'src/impls/cow.rs']

prop('C01', 'Values survive writing and reading back',
 'For every derived type whose reading and writing rules mirror each other, every value obtained by reading some byte stream can be written, the written bytes are exactly those the declared format prescribes, and reading them gives back an equal value. This holds for every combination of number sizes, byte orders, bit orders, alignments, containers, enums, padding, conditions, seeks and nesting.',
 ['programs', 'inputs'], 'Every program of the zoo (structs and enums over the whole attribute language) and every byte string up to a bounded length over a boundary alphabet.',
 'Tests round-trip a handful of values per attribute; interactions (unaligned position x bit order x container x byte order) and all other values are not reached.',
 [RD, WR, PRIM, DR, DW] + CONTS, [('derive read/write code generation', DR + ', ' + DW), ('bit-level reader and writer', RD + ', ' + WR)],
 'explicit-state conformance: all inputs x all zoo programs through reference model and real derived code', 'Bounded input lengths and alphabets; finite program zoo.')
prop('C02', 'Numbers have the documented bit layout at every size, order and offset',
 'Reading an n-bit or n-byte number from any bit position gives exactly the value its declared byte order and bit order define (negative numbers sign-extended from n bits), and writing a value that fits places exactly those bits and nothing else. Asking for more bits than the type holds is an error, and never yields a value.',
 ['inputs', 'programs'], 'All integer, float and non-zero types, all bit sizes 0..=width+9 and all byte sizes, both byte orders, both bit orders, start offsets 0..7, boundary and walking-bit patterns, every way of passing the sizes and orders.',
 'Tests sample a few sizes and aligned offsets; the implementation has many separate fast and slow paths selected by size, alignment and orders.',
 [PRIM, RD, WR, 'src/ctx.rs'], [('number reading and writing', PRIM), ('bit fetch and bit emit', RD + ', ' + WR)],
 'exhaustive enumeration of (type, size, orders, offset, pattern) against a bit-level reference model', 'Values are patterns (walking bits, boundaries), exhaustive for small widths.')
prop('C03', 'A reader is a cursor over the bit stream, whatever the sequence of requests',
 'For every sequence of bit reads, byte reads, skips, seeks and end-of-input queries, in any mix of bit orders, a reader returns exactly the bits at its current position, advances by exactly the amount requested, and reports its position and unread bits correctly. Requests past the end fail as incomplete and end-of-input queries never disturb what later requests return.',
 ['histories'], 'All operation sequences up to a depth over an operation alphabet, from every start offset, over several byte streams and stream kinds.',
 'Tests run a few fixed sequences; the leftover-bit state machine has many states and transitions that only specific sequences reach.',
 [RD], [('leftover state machine', RD)],
 'explicit-state model checking of operation sequences, each replayed on the real reader', 'Operation alphabet and depth bounded.',
 state=[{'name': 'leftover', 'meaning': 'unread bits (or one byte) already fetched from the stream', 'where': RD}, {'name': 'bits_read', 'meaning': 'position in bits', 'where': RD}])
prop('C04', 'A writer emits exactly the requested bits, whatever the sequence of requests',
 'For every sequence of bit writes, byte writes, seeks and finalizations the bytes in the output are exactly the requested bits in order, the reported number of written bits is right, and after finalizing only the last partial byte is zero padded. Bits pending when the writer is moved to another position are not lost and do not end up at the new position.',
 ['histories'], 'All operation sequences up to a depth over an operation alphabet (bit orders not mixed within one byte).',
 'Tests run a few fixed sequences; the pending-bit state machine has separate paths for every bit-order pair and for integer and slice writes.',
 [WR], [('pending-bit state machine', WR)],
 'explicit-state model checking of operation sequences, each replayed on the real writer', 'Operation alphabet and depth bounded; bytes shared by both bit orders are only specified when the second order completes the byte.',
 state=[{'name': 'leftover', 'meaning': 'pending bits not yet written', 'where': WR}, {'name': 'bits_written', 'meaning': 'bits written so far', 'where': WR}])
prop('C05', 'Truncated input is reported as incomplete and never misread',
 'If a value was read from a byte string, then reading from any shorter prefix that cuts into the consumed bytes fails with an incomplete error and produces no value, while appending bytes after the consumed part changes neither the value nor what was consumed. A type that by declaration reads elements to the end of the input holds fewer elements if the input is cut between two of them, and fails in the same way if an element itself is cut. Types that position relative to the end are exempt.',
 ['inputs', 'programs', 'crash_points'], 'Every zoo program not positioned relative to the end, every accepted input in the bounded space, every cut position, and several kinds of trailing bytes, from slices and from streams.',
 'Tests cut a few inputs at one place; each attribute has its own reading path that can lose the error.',
 [RD, PRIM, DR] + CONTS, [('end-of-input detection', RD), ('container reading', 'src/impls/vec.rs')],
 'exhaustive truncation-point enumeration over all accepted inputs of the zoo', 'Bounded inputs.', level='model_checking')
prop('C06', 'I/O failures surface, and short or interrupted transfers are invisible',
 'If any single read, write or seek of the underlying stream that the result depends on fails, the operation reports an error (the stream\'s own error for failures other than end of input), never panics, never returns a value and never reports success. Streams that deliver or accept data in arbitrarily small pieces, or interrupt calls, give exactly the results of an ordinary stream.',
 ['fault_sequences', 'programs'], 'Every zoo program, representative inputs and values, every I/O call position of the run as fault point with several error kinds, every chunk size, with and without interruptions.',
 'Tests use in-memory streams that never fail.',
 [RD, WR, 'src/error.rs', 'src/noseek.rs'] , [('stream access', RD + ', ' + WR), ('error conversion', 'src/error.rs')],
 'exhaustive fault-point enumeration (single fault at every I/O call) on the real code with a fault-injecting stream', 'Single faults; in-memory stream.', level='fault_enumeration')
prop('C07', 'Consumption is accounted to the bit, so messages can be chained',
 'After reading a value, the reported remaining input starts exactly at the first unread bit: continuing from it, at any bit offset, reads a following message exactly as if it were alone, and the number of bits reported as consumed is exactly the number the format prescribes. Reading starting at any bit offset gives the same value as reading the same bits from the start.',
 ['inputs', 'programs', 'histories'], 'Every non-seeking zoo program, every bounded input, all start bit offsets 0..7 and beyond, all ordered pairs of a set of programs chained.',
 'Tests check the remainder for a few types; accounting is spread over all reading paths.',
 [RD, DM, DR], [('bits_read accounting', RD), ('remaining input computation', DR)],
 'exhaustive enumeration of (program, input, offset) and message pairs against the cursor model', 'Bounded inputs; shifted streams use the default bit order.')
prop('C08', 'Containers read exactly the elements their limit selects',
 'A container read with an element count, a byte limit, a bit limit, an end predicate or to the end of the input holds exactly the elements that limit selects, each read with the declared size, byte order, bit order and arguments, in order, and the next field starts right after them. Elements are read until they take up a byte or bit limit exactly; a limit they never meet exactly is an error, and no element is ever cut.',
 ['inputs', 'programs'], 'All container kinds x all limits x all element kinds of the zoo x positions (aligned, unaligned, both bit orders) and all bounded inputs.',
 'Tests check a few container/limit/element combinations at aligned positions.',
 CONTS + [DR, RD], [('limit loops', 'src/impls/vec.rs'), ('fast path for counted bytes', DR)],
 'explicit-state conformance over the full container x limit x element product', 'Bounded lengths; element zoo.')
prop('C09', 'A value that does not fit its declared bits is refused, never truncated',
 'Writing a number into n declared bits succeeds exactly when the number is representable in n bits (two\'s complement for signed numbers), and otherwise fails with an invalid-parameter error without changing the meaning of what was written before. This holds for every type, byte order, bit order and position.',
 ['inputs', 'programs'], 'All integer types, all bit sizes, both byte and bit orders, offsets 0..7, all values near every power of two and the range ends (all values of 8-bit types).',
 'Tests check a few overflowing values on one path; each order/size path has its own check.',
 [PRIM, WR], [('range checks', PRIM)],
 'exhaustive enumeration of (type, size, orders, offset, boundary value) on the real code', 'Wide types use boundary values.')
prop('C10', 'Enum variants are selected, written and identified by their declared id',
 'Reading an enum selects the first variant in declaration order whose id or pattern matches, else the default variant, else fails; writing a variant emits its id (or the id stored in it) in the declared id size and byte order followed by its fields. The id reported for a value is the declared id of its variant, and reading what was written selects the same variant.',
 ['inputs', 'programs'], 'A product of enum programs (id type x size x byte order x id form x pattern x default position x fields x context id) and all ids of the id space (exhaustive up to 16 bits, boundaries above).',
 'Tests check a few ids of a few enums.',
 [DR, DW, DM], [('variant matching', DR), ('id emission', DW)],
 'explicit-state conformance over all ids of generated enum programs', 'Ids wider than 16 bits are sampled at boundaries exhaustively chosen from the program.')
prop('C11', 'Magic bytes and assertions reject exactly the inputs that break them',
 'A type or field with a magic sequence is read exactly when those bytes are present at that position and they are always written; a field with an assertion is accepted on read and on write exactly when the assertion holds for its value. Rejection is a parse error for magic and an assertion error for assertions, and never a value.',
 ['inputs', 'programs'], 'Zoo of magic/assert programs (struct, field, enum, nested, unaligned, with padding and seeks), all bounded inputs, and all values for writing.',
 'Tests check one good and one bad input per attribute.',
 [DR, DW], [('magic and assertion code generation', DR + ', ' + DW)],
 'explicit-state conformance over all bounded inputs and all written values', 'Bounded inputs.')
prop('C12', 'Conditional, skipped, defaulted, padded and temporary fields follow their rules',
 'A conditional field is read exactly when its condition holds and otherwise takes its default; a skipped field is neither read nor written; padding consumes on read and emits as zeros on write exactly the declared number of bits or bytes; temporary fields take part in the byte format but not in the value. Conditions and sizes see exactly the fields and arguments before them.',
 ['inputs', 'programs'], 'Zoo of field-control programs and all their combinations (cond x skip kind x default x padding x temp x custom reader/writer/map), all bounded inputs and all produced values.',
 'Tests exercise each attribute alone.',
 [DR, DW], [('field code generation', DR + ', ' + DW)],
 'explicit-state conformance over the attribute product', 'Bounded inputs.')
prop('C13', 'Update recomputes exactly the declared fields; writing is pure',
 'Updating a value sets every field with an update rule to the value of its expression evaluated in declaration order, leaves all other fields unchanged, and fails without panicking when a result does not fit. After an update the value written and read back is consistent, writing never changes the value, and writing the same value twice gives the same bytes.',
 ['inputs', 'programs'], 'Zoo of update programs, all values from bounded inputs plus all bounded mutations of their fields.',
 'Tests update a few values.',
 [DW, DM], [('update code generation', DW)],
 'explicit-state conformance of update and write over all mutated values', 'Bounded values.')
prop('C14', 'All reading and writing entry points agree',
 'Reading from a byte slice, from a stream, through a shared reader, through conversion from a slice, and from a stream at a non-zero position give the same value or the same kind of error; conversion from a slice additionally refuses unread bytes. Writing to bytes, to a bit vector, to a caller-provided buffer of any length, to a stream, and through a shared writer produce the same bits, and a buffer that is too small is an error.',
 ['inputs', 'programs'], 'Every zoo program, all bounded inputs and produced values, all buffer lengths from zero to beyond the needed size.',
 'Tests use each entry point on a few types.',
 [DM, 'src/lib.rs', DR, DW, RD, WR], [('entry point code generation', DR + ', ' + DW), ('container traits', 'src/lib.rs')],
 'exhaustive differential conformance of all entry points against the model', 'Bounded inputs.')
prop('C15', 'The declared static size equals what is written',
 'The compile-time size of a type, in bits and bytes, equals the size of every value it writes when its size is fixed, and for an enum it is the size of the largest variant. This holds for all number sizes, arrays, tuples, nested types, magic, padding and temporary fields.',
 ['inputs', 'programs'], 'All sized zoo programs and all values produced from bounded inputs.',
 'Tests check a few constants.',
 [DS, 'src/lib.rs', PRIM], [('size computation', DS)],
 'exhaustive comparison of the static size with every written value and the model size', 'Bounded values.')
prop('C16', 'Seek attributes move to exactly the declared position, on read and on write',
 'A field or type with a seek attribute is read from and written to exactly the declared position (from start, from the current position, from the end), fields without one continue after the previous one, and positions out of range are errors. Streams that cannot seek support exactly the seeks that do not move, and fail on the others.',
 ['inputs', 'programs', 'histories'], 'Zoo of seek programs (struct, field, enum, nested, after bits, with padding/magic/cond) x all bounded inputs; all seek operation sequences on the non-seeking adapter up to a depth.',
 'Tests check one seek of each kind.',
 [DR, DW, RD, WR, 'src/noseek.rs'], [('seek code generation', DR + ', ' + DW), ('non-seeking adapter', 'src/noseek.rs')],
 'explicit-state conformance of seek programs and of adapter operation sequences', 'Streams start at position zero.')
prop('C17', 'Hostile input cannot panic, hang or exhaust memory',
 'For every byte string, reading any type ends with a value or an error: it never panics, overflows or hangs, and never allocates memory out of proportion to the input. Lengths, sizes and offsets taken from the input are treated as untrusted.',
 ['inputs', 'programs'], 'All zoo programs plus length-driven programs with 8- to 128-bit length fields (counts, byte and bit limits, sizes, paddings, seeks) and all bounded inputs over an extreme-value alphabet.',
 'Tests use well-formed input; extreme lengths are not tried.',
 [RD, 'src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/cstring.rs', PRIM, DR], [('length handling', 'src/impls/vec.rs, ' + RD), ('generated size arithmetic', DR)],
 'exhaustive enumeration of extreme inputs on the real code with overflow checks, allocation guard and watchdog', 'Elements that consume nothing are excluded; user expressions are overflow-free.')
prop('C18', 'Optional library features do not change results',
 'For programs that can be built with several combinations of the optional features (bit-level support, allocation, descriptive errors, logging, standard library), reading and writing give the same values, bytes, consumption and kinds of error in all of them.',
 ['configurations', 'programs', 'inputs'], 'Feature combinations x byte-level zoo x all bounded inputs, plus the bit-level zoo for the combinations that have bits.',
 'Each test runs its own assertions in each configuration; code paths differ per feature and are only sampled.',
 [RD, WR, PRIM, DR, DW, 'src/error.rs', 'Cargo.toml'], [('feature-dependent paths', RD + ', ' + WR + ', ' + PRIM)],
 'the same exhaustive conformance exploration built once per feature combination', 'Subset of combinations in the quick tier.')
prop('C19', 'Byte order, bit order, sizes and arguments reach exactly where they are declared',
 'A field is read and written with its own byte order and bit order if declared, else those of its type, else the defaults; nested types receive exactly the arguments their parent passes (in the declared order) or their declared defaults when none are passed. The id of an enum, also one that a variant stores, is read and written in the byte order declared for ids, if there is one. This holds through containers, options, boxes, arrays, tuples and enum variants.',
 ['programs', 'inputs'], 'Product of inheritance programs (level at which each order is declared x container x nesting x enum/struct) and all bounded inputs.',
 'Tests cover some inheritance pairs.',
 [DM, DR, DW, 'src/ctx.rs'], [('argument construction', DM)],
 'explicit-state conformance over the inheritance product', 'Bounded inputs.')
prop('C20', 'Failed reads drop exactly what was built, once',
 'When reading an array, container, tuple or nested value fails part-way, every element already read is dropped exactly once and nothing else is dropped; when it succeeds every element is owned by the result. No read leaks or double-frees elements, whether it fails by truncation, by a bad element or by a panic in user code.',
 ['fault_sequences', 'inputs', 'programs'], 'Arrays (all lengths up to a bound, zero-sized and large elements), vectors, boxed slices, maps, sets, tuples and nestings of drop-counting elements; failure of every kind at every element position.',
 'Tests check no drop counts; array reading uses uninitialised memory.',
 ['src/impls/slice.rs', 'src/impls/vec.rs', 'src/impls/boxed.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs'], [('array construction from uninitialised memory', 'src/impls/slice.rs')],
 'exhaustive fault-position enumeration with an ownership ledger on the real code', 'Array lengths up to a bound.', level='fault_enumeration')
prop('C21', 'Restricted-domain types accept exactly their domain',
 'Booleans, non-zero numbers, nul-terminated strings and network addresses are read exactly when the bytes encode a member of the type (0 or 1, not zero, exactly one trailing nul, any address), to exactly that member, and are written back to the same bytes. All other encodings are parse errors, in every size, byte order, bit order and position in which the type can be declared.',
 ['inputs', 'programs'], 'All restricted-domain programs of the zoo and all bounded inputs (exhaustive for 8- and 16-bit domains).',
 'Tests check a few encodings.',
 ['src/impls/bool.rs', 'src/impls/nonzero.rs', 'src/impls/cstring.rs', 'src/impls/ipaddr.rs'], [('domain checks', 'src/impls/bool.rs, src/impls/nonzero.rs, src/impls/cstring.rs')],
 'explicit-state conformance, exhaustive over 8- and 16-bit domains', 'Bounded inputs.')

prop('C22', 'How a declaration is written does not change its format',
 'The format of a type depends only on the types, the order of its fields and variants and the attributes they carry. It is not changed, and the declaration is not refused, by: the names of fields, variants and types (raw identifiers, names of prelude items and of items and parameters the generated code uses, names of inherent methods the type also has); naming fields or leaving them positional; the order and grouping of the attributes, attributes of others in between, cfg_attr, and spelling numbers as strings and flags as `= true`; naming a field type through an alias or making it, or an array length, a parameter of the type; producing the declaration from a macro_rules macro; or importing the crate under another name. Reading, writing, update and static size stay the same.',
 ['programs', 'inputs'], 'Every program of the zoo, rewritten in these ways (one combination each in quick, several in thorough), and all bounded inputs of it.',
 'Tests use one way of writing each declaration.',
 ['deku-derive/src/lib.rs', 'deku-derive/src/macros/mod.rs', 'deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'deku-derive/src/macros/deku_size.rs'],
 [('attribute parsing', 'deku-derive/src/lib.rs'), ('names in generated code', 'deku-derive/src/macros/mod.rs: get_crate_name, gen_internal_field_ident, gen_struct_destruction')],
 'explicit-state conformance of the rewritten declarations against the model of the original', 'Expressions passed through macro_rules as literals apart from the fields they mention, and names equal to prelude variants (Ok, Some) used for fields, are refused by Rust itself and left out.')

prop('C23', 'An incomplete error says how much more is needed',
 'When reading fails because the input ends, the number of bits reported as needed is what the failed request needs from the position where reading stopped (the number of bits consumed so far): it is more than what is left there, it never reaches beyond the end of the message being read, and once that many bits are there a retry gets past the failed request. So a receiver that waits for what was asked for and tries again ends with the whole message, and never waits for bytes that do not belong to it. This holds for every type, wherever the message is cut, whether it is read from a slice or a stream, and for every request made directly of a reader; asking for the end of the input in between changes nothing. The number of bytes needed is the number of bits, rounded up.',
 ['programs', 'inputs', 'crash_points'], 'Every non-seeking zoo program, every accepted input in the bounded space, every cut position, the retry with what was asked for; every direct request at every position against every end.',
 'A few tests compare the number for one type each; every reading path computes it on its own.',
 [RD, 'src/impls/vec.rs', DR, 'src/error.rs'], [('incomplete errors', RD + ': read_bits_into, read_bits_uint_msb0, read_bytes, read_bytes_const, read_bytes_leftover'), ('counted bytes', 'src/impls/vec.rs'), ('NeedSize', 'src/error.rs')],
 'exhaustive enumeration of truncation points and of the retry that each error asks for, on the real code', 'Positions after a declared seek are not counted from the start of the message, so seeking types are left out.')

prop('C24', 'Contradictory declarations are refused when they are compiled',
 'A declaration whose attributes contradict each other or mean nothing where they stand does not compile; any other combination of attributes is not refused by the derive macros. Refused are, on a field: two of bits, bytes; of count, bits_read, bytes_read; read_all with any of until, count, bits_read, bytes_read; default without skip or cond; more than one seek (also at the top level); skip with anything but nothing, read or write; anything on the field that stores the id of an id_pat variant. On a type: ctx_default without ctx; id, id_type, id_endian, bits or bytes on a struct; neither or both of id and id_type on an enum; bits or bytes next to id; both bits and bytes. On variants: id together with id_pat, id = "_", reading a variant that has no id, id_pat or discriminant, more than one default, discriminants without repr or with a repr other than id_type, writing an id that is not known. Everywhere: unknown attributes, an attribute given twice, expressions naming internal variables (__deku_), DekuSize with a seek. This does not depend on which traits are derived or how, on the place, order or other attributes, or on the features of the library (without bits, the bit attributes are unknown).',
 ['programs'], 'Every combination of up to two attributes of a field (up to three of those with a rule) in every place a field can stand and with every derive; every combination of up to three top-level attributes on structs and enums; every sequence of up to two variants x repr x kind of id x derives; malformed attributes next to every other. With and without the bits feature.',
 'Compile-fail tests show one example of each rule; an exception for a place, a derive, a feature or a third attribute is not seen, and none shows that legitimate combinations stay accepted.',
 [DM, DR, DW, DS, 'deku-derive/src/macros/mod.rs'], [('validation of types, fields and variants', DM + ': DekuData::validate, FieldData::validate, VariantData::validate, any_field_set'), ('rules found while generating code', DR + ', ' + DW + ', ' + DS + ': syn::Error')],
 'exhaustive enumeration of declarations within bounds, each expanded by the real derive macros in the compiler, against a rule model', 'Rules about types and expressions that the Rust compiler enforces on the generated code are not part of the model.')

exec(open(os.path.join(ROOT, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'more.py')) else None

NA = {}
def built(id): return os.path.exists(f'{ROOT}/mc/src/bin/{id.lower()}.rs') or os.path.exists(f'{ROOT}/{id.lower()}.sh')
def main():
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']: a['state'] = p['state']
            if p['observe']: a['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
             notes='Every check generates its programs, builds only its own binary against /repo\'s working tree and explores it exhaustively within its bounds; see DESIGN.md.')
    for p in P:
        if built(p['id']):
            m['checks'].append(dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]} quick', thorough_cmd=f'./run.sh {p["id"]} thorough', technique=p['technique'], level=p['level'], level_note=p['note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
    json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties,', len(m['checks']), 'checks')
main()
