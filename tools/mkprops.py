"""Writes properties.jsonl (kept as a script so that the table stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': dict(files=files, mechanism=[{'name': a, 'where': b} for a, b in mech],
                              **({'observe_at': observe} if observe else {}),
                              **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {}))})


p('C01', "A scalar's reflected operations agree with the type's own traits",
  "For every built-in scalar type (unit, bool, char, all integers, floats, strings), the reflected layout is the type's layout and the reflected equality, ordering, hashing, cloning, default and drop give exactly the results of the type's own trait implementations. An operation is advertised for a scalar exactly when the type implements the corresponding trait.",
  ['inputs'], 'every pair of values of every built-in scalar type',
  'Tests print the outcome of a few sample values; equality/ordering/hash over the full value domain (NaN, MIN/MAX, surrogate-adjacent chars) is never compared with the trait.',
  ['facet-core/src/impls_core/scalar.rs', 'facet-core/src/macros.rs', 'facet-core/src/spez/mod.rs', 'facet-core/src/types/value.rs'],
  [('value_vtable! builds each entry from the trait impl', 'facet-core/src/macros.rs'), ('auto-deref specialisation', 'facet-core/src/spez/mod.rs')],
  ['Shape::vtable', 'Shape::layout'])
p('C02', "Composite types compare, order and default element-wise",
  "For options, tuples, fixed-size arrays, slices and vectors, whenever reflection advertises equality, ordering, partial ordering, hashing or default, the result equals that of the Rust type itself on the same values. No such operation reads or writes outside the value.",
  ['inputs'], 'every pair of values of composites over integer, bool and float elements (array/slice/vector lengths bounded as stated in the evidence)',
  'Unit tests cover one or two literals per composite; asymmetric, prefix, and NaN-bearing operands are not sampled.',
  ['facet-core/src/impls_core/tuple.rs', 'facet-core/src/impls_core/array.rs', 'facet-core/src/impls_core/slice.rs', 'facet-core/src/impls_core/option.rs', 'facet-core/src/impls_alloc/vec.rs'],
  [('per-element delegation to the element vtable', 'facet-core/src/impls_core/tuple.rs'), ('iterator comparison over elements', 'facet-core/src/impls_core/array.rs')],
  ['ValueVTable::{eq,partial_ord,ord,hash,default_in_place}'])
p('C03', "List, option and pointer operation tables implement their container",
  "Through a container's reflected operation table: a list's push appends, its length and item access agree with the real container; an option's test, value access, initialisation and replacement agree with the real option and drop what they replace; an array or slice item access yields the addressed element; a smart pointer's creation, borrow, upgrade and downgrade agree with the real pointer.",
  ['inputs', 'histories'], 'every element value and every short sequence of table operations on each built-in container',
  'Tests exercise each table entry on one literal; index-dependent and drop-count behaviour over all inputs is not observed.',
  ['facet-core/src/impls_alloc/vec.rs', 'facet-core/src/impls_core/option.rs', 'facet-core/src/impls_core/array.rs', 'facet-core/src/impls_core/slice.rs', 'facet-core/src/impls_alloc/smartptr.rs'],
  [('ListVTable / OptionVTable / SmartPointerVTable closures', 'facet-core/src/impls_alloc/vec.rs'), ('option replace_with drops the old value', 'facet-core/src/impls_core/option.rs')],
  ['ListVTable', 'OptionVTable', 'ArrayVTable', 'SmartPointerVTable'])
p('C04', "Type identity and trait queries are truthful",
  "Two shapes are equal, and a shape is recognised as a given type, exactly when they describe the same Rust type; the scalar classification names exactly the scalar types it lists and no others. Asking a shape whether it has a characteristic, or all / any / none of a set of characteristics, never says yes to what the type does not implement, and for scalar and derived types says yes to everything it does.",
  ['inputs', 'configurations'], 'every pair of built-in scalar types, every characteristic and every set of characteristics',
  'Tests check single examples per scalar; cross pairs and sets of characteristics are not enumerated.',
  ['facet-core/src/types/mod.rs', 'facet-core/src/typeid.rs', 'facet-core/src/types/characteristic.rs', 'facet-reflect/src/scalar.rs'],
  [('ConstTypeId equality', 'facet-core/src/typeid.rs'), ('Characteristic::all/any/none', 'facet-core/src/types/characteristic.rs'), ('ScalarType::try_from_shape', 'facet-reflect/src/scalar.rs')],
  ['Shape::is_type', 'Shape::is', 'ScalarType::try_from_shape'])
p('D01', "A derived struct shape describes the real memory layout",
  "For every struct definition in the studied family (named, tuple, unit, generic, packed-by-reordering, repr(C), nested), the derived shape lists exactly the declared fields in order with their names, types, attributes and byte offsets: reading field i at its reported offset with its reported type yields that field of any value.",
  ['programs', 'inputs'], 'every value of every struct definition of the family enumerated in the harness (all definitions beyond the family are not covered)',
  'Tests assert a handful of names/offsets on fixed types and never read every field of an arbitrary value through its offset.',
  ['facet-derive-emit/src/process_struct.rs', 'facet-derive-emit/src/lib.rs', 'facet-core/src/types/field.rs'],
  [('offset_of based field descriptors', 'facet-derive-emit/src/process_struct.rs'), ('attribute list emission', 'facet-derive-emit/src/lib.rs')],
  ['Shape::def'])
p('R01', "A value is only released by the builder when every part is initialised",
  "Building succeeds exactly when every field of the value, at every nesting level, has been given a value; in every other state building fails with an error and no partially initialised value is ever handed out.",
  ['histories'], 'every order and subset of field initialisations, including leaving and re-entering nested fields',
  'Tests try one or two missing-field orders; the property ranges over all histories of builder calls.',
  ['facet-reflect/src/wip/mod.rs', 'facet-reflect/src/wip/iset.rs'],
  [('per-frame initialisation set checked by build', 'facet-reflect/src/wip/mod.rs Wip::build'), ('child completion marks the parent field', 'facet-reflect/src/wip/mod.rs Wip::mark_field_as_initialized')],
  ['Wip::build'])
p('R02', "The builder drops every value it was given exactly once",
  "Whatever sequence of builder operations is performed and wherever it is abandoned (dropped, failed build, finished value dropped or taken out), every value moved into the builder is dropped exactly once in total, never twice and never leaked.",
  ['histories'], 'every history of builder operations on structs with droppable fields, nested values, lists, options and enums, abandoned at any point',
  'Leaks and double drops show only for particular abandon points; tests drop at two or three of them.',
  ['facet-reflect/src/wip/mod.rs', 'facet-reflect/src/wip/heap_value.rs'],
  [('Wip::drop walks initialised parts', 'facet-reflect/src/wip/mod.rs'), ('HeapValue::drop / materialize', 'facet-reflect/src/wip/heap_value.rs')],
  ['Drop of the contained values'])
p('R03', "A finished value equals the values that were put in",
  "Building a struct, nested struct, list, map or option from chosen parts and taking the result out yields exactly the value made of those parts: each field holds what was put in it, list elements keep their order, map entries keep their key, none and some stay distinct.",
  ['inputs', 'histories'], 'every scalar value in every field; every order of field initialisation of the studied types',
  'Tests build a few literals; field/offset mix-ups that need particular orders or types are not sampled.',
  ['facet-reflect/src/wip/mod.rs', 'facet-reflect/src/wip/heap_value.rs', 'facet-core/src/types/field.rs'],
  [('field offset projection', 'facet-reflect/src/wip/mod.rs Wip::field'), ('push / pop move the element into its container', 'facet-reflect/src/wip/mod.rs Wip::pop_inner')],
  ['Wip::build', 'HeapValue::materialize'])
p('R04', "A value is never read or written as the wrong type",
  "Reading a reflected value as another type, taking a finished value out as another type, or putting a value of another type into a place is refused with an error and leaves the value untouched; the same operations with the right type succeed.",
  ['inputs'], 'every ordered pair of distinct types in the studied type family and every value of the source type',
  'Tests try a couple of mismatches; the guarantee is over all pairs of types.',
  ['facet-reflect/src/peek/value.rs', 'facet-reflect/src/wip/mod.rs', 'facet-reflect/src/wip/heap_value.rs'],
  [('shape comparison before the cast', 'facet-reflect/src/peek/value.rs Peek::get'), ('Wip::put_shape type check', 'facet-reflect/src/wip/mod.rs'), ('HeapValue::materialize', 'facet-reflect/src/wip/heap_value.rs')],
  ['Peek::get', 'Wip::put', 'HeapValue::materialize'])
p('R05', "Enums are built and read as the variant that was selected",
  "For enums of every supported representation, selecting a variant and filling its fields yields the Rust value of exactly that variant with exactly those fields, and reading any enum value reports its real variant, discriminant and field values.",
  ['inputs', 'configurations'], 'every supported integer representation, explicit and implicit (also large; negative ones in hand-written shapes) discriminants, every variant, every field value',
  'Tests use few representations and small discriminants; sign, width and offset errors need particular combinations.',
  ['facet-reflect/src/wip/enum_.rs', 'facet-reflect/src/wip/mod.rs', 'facet-reflect/src/peek/enum_.rs', 'facet-derive-emit/src/process_enum.rs'],
  [('discriminant written by representation', 'facet-reflect/src/wip/enum_.rs'), ('discriminant read by representation', 'facet-reflect/src/peek/enum_.rs'), ('variant tables emitted by the derive', 'facet-derive-emit/src/process_enum.rs')],
  ['Wip::variant', 'PeekEnum::active_variant'])
p('R06', "Reading a value through reflection shows exactly that value",
  "Walking any value of the studied types through the read-only reflection view (struct fields by index and name, list items, option payload, map entries, and comparisons between views) observes exactly the parts of the value, in order, and nothing for names or indexes that do not exist.",
  ['inputs'], 'every value of the studied types (list lengths bounded as stated in the evidence)',
  'Tests look at literals; the guarantee is for all values and all indexes including one past the end.',
  ['facet-reflect/src/peek/struct_.rs', 'facet-reflect/src/peek/list.rs', 'facet-reflect/src/peek/option.rs', 'facet-reflect/src/peek/map.rs', 'facet-reflect/src/peek/value.rs'],
  [('field pointer = base + offset', 'facet-reflect/src/peek/struct_.rs'), ('bounds checked item access', 'facet-reflect/src/peek/list.rs')],
  ['Peek', 'PeekStruct', 'PeekList', 'PeekOption'])
p('R07', "Numbers read from text never wrap into a numeric field",
  "Putting a floating-point number into a numeric place stores a value only if the number lies within the range of the target type, and then stores the number truncated toward zero; any number outside the range, and any non-number for integer targets, is refused, and a non-zero target never receives zero.",
  ['inputs'], 'every 64-bit float and every numeric target type',
  'Tests try the limits of a few types; the behaviour at every float (2^53, 2^63, 2^64, NaN, infinities, -0.5) is not sampled.',
  ['facet-reflect/src/wip/put_f64.rs'],
  [('range guard before each cast', 'facet-reflect/src/wip/put_f64.rs')],
  ['Wip::try_put_f64'])
p('R08', "The builder's record of initialised parts is exact",
  "The record of which fields of a value are initialised behaves as a set over at most 64 fields (setting, unsetting and querying one index never affects another; 'all of the first n set' is exact for every n up to 64), and the record of partially built values behaves as a map (insert, lookup, remove and iteration agree with a mathematical map, one key never affecting another).",
  ['inputs', 'histories'], 'every 64-bit set, every index and count; every map content and key, unbounded',
  'Tests use structs with a handful of fields; the 32nd/63rd/64th field and removal orders are not sampled.',
  ['facet-reflect/src/wip/iset.rs', 'facet-reflect/src/wip/flat_map.rs'],
  [('bit mask set', 'facet-reflect/src/wip/iset.rs'), ('vector backed map', 'facet-reflect/src/wip/flat_map.rs')],
  ['Wip::is_field_set', 'Wip::build'])
p('M01', "MessagePack output is the specified, shortest encoding of each value",
  "Every integer, string and map header written by the MessagePack serialiser is the MessagePack encoding of that very value, in the shortest format the specification offers for it, followed by exactly the value's bytes.",
  ['inputs'], 'every value of every supported integer type, every string length below 2^32 and every field count',
  'Tests compare a dozen byte strings; format boundaries (127/128, 255/256, -32/-33, 2^31, 2^32...) for each width and sign are many and only proof covers all.',
  ['facet-msgpack/src/to_msgpack.rs'],
  [('range-matched format selection', 'facet-msgpack/src/to_msgpack.rs write_*')],
  ['to_vec'])
p('M02', "MessagePack decoding is total: any bytes give a value or an error",
  "Decoding arbitrary bytes into a supported type terminates and returns either a value or an error: it never panics, never reads outside the input, and never accepts an input that ends inside a value; an integer is accepted only if it fits the target type and then is stored unchanged.",
  ['inputs'], 'every byte string (nesting of the target type limited by the stack, of skipped values not at all)',
  'Fuzz-like inputs are not in the suite; each truncation point and each prefix byte is a separate case.',
  ['facet-msgpack/src/from_msgpack.rs'],
  [('bounds check before every read', 'facet-msgpack/src/from_msgpack.rs Decoder'), ('range check before narrowing', 'facet-msgpack/src/from_msgpack.rs deserialize_value')],
  ['from_slice'])
p('M03', "MessagePack round trip",
  "Decoding what the serialiser wrote gives back the value that was serialised, for every supported scalar, string and struct, whatever the order in which the fields appear in the map.",
  ['inputs'], 'every value of the supported scalar types; structs of them with the fields in any order',
  'Tests round-trip a few literals; sign and width mismatches between the two sides need particular values.',
  ['facet-msgpack/src/to_msgpack.rs', 'facet-msgpack/src/from_msgpack.rs'],
  [('encoder/decoder pair', 'facet-msgpack/src/from_msgpack.rs decode_u64'), ('fields by name', 'facet-msgpack/src/from_msgpack.rs deserialize_value')],
  ['to_vec', 'from_slice'])
p('M04', "Unknown MessagePack fields are skipped exactly",
  "An unknown field of a MessagePack map is skipped by consuming exactly one complete value of any MessagePack type, however nested, so that the following fields decode as if the unknown one were absent; an incomplete value is reported as an error.",
  ['inputs'], 'every byte string in the position of an unknown value, any nesting depth',
  'Tests skip two or three kinds of value; the full format table times nesting is unbounded.',
  ['facet-msgpack/src/from_msgpack.rs'],
  [('skip_value loop over the format table', 'facet-msgpack/src/from_msgpack.rs skip_value')],
  ['from_slice'])
p('J01', "JSON strings are escaped so that a standard parser reads them back",
  "For every string, the JSON serialiser writes a quoted literal that contains no raw quote, backslash or control character of its own and that any conforming JSON parser decodes to exactly the original string.",
  ['inputs'], 'every string (all Unicode scalar values in every position)',
  'Tests escape a few characters; every control character and boundary code point in every position is not sampled.',
  ['facet-json/src/serialize.rs'],
  [('per-character escaping loop', 'facet-json/src/serialize.rs write_json_string')],
  ['to_string', 'to_writer'])
p('J02', "Unknown JSON fields are skipped exactly",
  "The value of an unknown object field is skipped by consuming exactly one complete JSON value, however nested, never reading outside the input and never stopping inside or beyond the value; input that is not a complete value is reported as an error (the escapes and the encoding inside skipped strings are not validated).",
  ['inputs'], 'every byte string in the position of an unknown value, any nesting depth',
  'Tests skip a few literals; truncations, escapes before quotes and nested mixtures are unbounded.',
  ['facet-json/src/deserialize.rs'],
  [('skip_over_value', 'facet-json/src/deserialize.rs')],
  ['from_str', 'from_slice'])
p('J03', "JSON output is well formed and carries exactly the value",
  "Serialising any supported value (booleans, integers, strings, options, lists, structs, enums, nested) writes one well-formed JSON document whose decoded content is exactly that value: commas, brackets and names in place, renamed struct fields under their new name, none and non-finite floats as null, an enum as its variant name or as an object with the name as its only member.",
  ['inputs'], 'every value of the studied types, list lengths 0 to the stated bound',
  'Snapshot tests cover few shapes; empty/one/many element, first/last-position and nesting combinations are not enumerated.',
  ['facet-json/src/serialize.rs', 'facet-reflect/src/peek/struct_.rs', 'facet-reflect/src/peek/enum_.rs'],
  [('structural recursion with first-element flags', 'facet-json/src/serialize.rs')],
  ['to_string', 'to_writer'])
p('J04', "JSON objects are read into the fields they name",
  "Reading a JSON document into a struct puts each member's value into the field it names (or renames to), in any member order and with any white space, skips unknown members, supplies declared defaults only for absent members, and refuses the document if a required member is absent or an unknown one is denied.",
  ['inputs', 'histories'], 'every member order and presence subset of the studied structs, every white-space placement, every scalar payload of the stated width',
  'Tests read fixed documents; orders, subsets and white space multiply beyond sampling.',
  ['facet-json/src/deserialize.rs', 'facet-reflect/src/wip/mod.rs'],
  [('expectation stack of the parser', 'facet-json/src/deserialize.rs from_slice_wip'), ('missing-field check before closing a struct', 'facet-json/src/deserialize.rs')],
  ['from_str', 'from_slice'])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
