"""Per property: what is proved, with which tool, over which extracted crates; and the native stand-in."""
FULL = ('paths', 'fmt', 'log', 'owo', 'parse', 'f64', 'avec', 'flatmap', 'typeid')
REFL = ['facet-core', 'facet-reflect']
RUST = ['rustc/Kani lowering of Rust to CBMC, CBMC 6.11 and CaDiCaL', 'Kani memory model (machine integers are bit-precise, allocation never fails)']

PROPS = {}
PROPS['R07'] = dict(
    level='proof', trusted=RUST, technique='Kani: try_put_f64 against the contracts of Wip::shape/put, per target type, all 2^64 floats',
    note='Complete for every f64 and each of the 22 numeric targets plus refused ones: the real body of try_put_f64 is checked modularly against the contract of Wip::put (stores exactly its argument), which R03/R04 check. Native search on the real crates as a complement.',
    kani=[dict(crates=REFL, subs=('paths', 'fmt', 'log', 'owo', 'parse', 'typeid'), harness=['r07'], contract={'facet-reflect': ('put_f64', ['wip/put_f64.rs', 'error.rs'])})],
    native=dict(crates=['facet-core', 'facet-reflect', 'facet'], harness=['r07']),
)

SETS = {'facet-reflect': ('sets', ['wip/flat_map.rs', 'wip/iset.rs'])}
PROPS['R08'] = dict(
    level='proof', trusted=RUST, technique='Kani: ISet and FlatMap operations against set/map specifications',
    note='ISet is proved completely; FlatMap for all maps up to the stated size with arbitrary keys and values (bounded), longer histories are searched natively.',
    bounds='ISet: none (complete over all 2^64 sets, all indexes, all counts).  FlatMap: maps of at most 3 entries with arbitrary keys and values, every operation; longer histories natively',
    kani=[dict(crates=REFL, subs=('paths', 'fmt', 'log', 'owo', 'parse', 'typeid'), harness=['r08'], contract=SETS)],
    native=dict(merged=REFL, harness=['r08'], contract=SETS),
)

CORE = ['facet-core']
CSUBS = ('paths', 'fmt', 'log', 'owo', 'parse', 'typeid')
PROPS['C01'] = dict(
    level='proof', trusted=RUST, technique='Kani: contract of every scalar operation table, per scalar type, all values',
    note='Complete for every pair of values of unit, bool, char, the 12 integer, 2 float and 12 NonZero types and Ipv4Addr; &str up to 3 bytes (bounded); String, Cow, paths, addresses and text (display/debug/parse) only by native search.',
    bounds='&str: at most 3 bytes in the proof; String, Cow<str>, Path, IpAddr, SocketAddr, display/debug/parse: native search only',
    kani=[dict(crates=CORE, subs=CSUBS, harness=['ops', 'c01'])],
    native=dict(crates=['facet-core', 'facet'], harness=['ops', 'c01']),
)

PROPS['C02'] = dict(
    level='proof', trusted=RUST, technique='Kani: composite operation tables against the type\'s own operations, modulo the element tables',
    note='Complete over all element values for options, tuples of every arity 1-9, and the listed fixed-size arrays; slices and vectors only up to the stated lengths (bounded), longer ones and droppable elements natively under ASan with a leak count.',
    bounds='arrays: lengths 0-7 (default up to 33), slices: up to 3 elements (4 in thorough), vectors: up to 3 elements; maps natively only',
    kani=[dict(crates=CORE, subs=CSUBS, harness=['ops', 'c02'], timeout=240)],
    native=dict(crates=['facet-core', 'facet'], harness=['ops', 'c02']),
)

PROPS['C03'] = dict(
    level='proof', trusted=RUST, technique='Kani: contract of each container operation table on the real container, with drop counts',
    note='Option, array, slice, Arc, Weak and NonNull tables: complete over all element values; Vec: up to 3 pushes (bounded); HashMap, BTreeMap, longer histories and heap elements natively under ASan with a leak count.',
    bounds='Vec: up to 3 pushes with 0-3 spare capacity; arrays and slices up to 5 items; maps natively only',
    kani=[dict(crates=CORE, subs=CSUBS, harness=['ops', 'c03'], timeout=240)],
    native=dict(crates=['facet-core', 'facet'], harness=['ops', 'c03']),
)

PROPS['C04'] = dict(
    level='proof', trusted=RUST, technique='Kani: identity, classification and characteristic queries over a symbolic pair / set of shapes',
    note='Complete over the 59 built-in and derived shapes listed in the harness (all pairs, all characteristics, all sets up to 3); the real ConstTypeId comparison and the truth of each claim (against the compiler\'s own trait resolution) by exhaustive native enumeration.',
    bounds='59 listed types; sets of at most 3 shapes in the proof (11 natively)',
    kani=[dict(crates=REFL, subs=CSUBS, harness=['ops', 'c04'], timeout=240)],
    native=dict(crates=['facet-core', 'facet-reflect', 'facet'], harness=['ops', 'c04'], deps='impls = "1.0.3"\n'),
)

PROPS['D01'] = dict(
    level='proof', trusted=RUST, technique='Kani: derived shapes against compiler layout, per definition of the family, all values',
    note='For each of 22 struct definitions (named, tuple, unit, generic, const generic, lifetime, nested, repr(C), transparent) the derived shape is proved to name every field, in order, with the compiler\'s own offset and type, for every value; a further 150 generated definitions (1500 in thorough) are compiled and compared natively.',
    bounds='the definitions are a finite family (22 proved, 150 generated natively); values unbounded',
    kani=[dict(crates=CORE, subs=CSUBS, harness=['ops', 'd01'], timeout=240)],
    native=dict(crates=['facet-core', 'facet'], harness=['ops', 'd01'], gen={'d01g': ['defs.py', 'structs', 'SEED', (150, 1500)]}),
)

MP = ['facet', 'facet-core', 'facet-reflect', 'facet-msgpack']
VTRUST = ['Verus 0.2026.09.13 and Z3: translation to SMT, soundness of the proof rules', 'target has 64-bit usize', 'contracts of the standard library in vstd',
          'assumed contracts of facet_reflect::Wip and Peek stated in verus/msgpack.rs (checked separately by R01-R06)']
PROPS['M01'] = dict(
    level='proof', trusted=VTRUST, technique='Verus: to_vec, serialize and write_* against the shortest-encoding specification, all values',
    note='Unbounded: every write_* function and the serialiser (recursion over any nesting) are verified, as extracted from /repo on each run, against the byte sequence the MessagePack specification prescribes; lemma_shortest proves no integer format is shorter. Trusted: contracts of Peek, Write for Vec, to_be_bytes and UTF-8.',
    bounds='none in the proof; strings and structs below 2^32 bytes/fields (beyond it the format itself has no encoding)',
    verus=[dict(spec='msgpack', fns='(write_.*|serialize|to_vec|lemma_shortest|lemma_bes.*)')],
    native=dict(crates=MP, harness=['mp'], only='m01'),
)
PROPS['M02'] = dict(
    level='proof', trusted=VTRUST, technique='Verus: every decoder function total and equal to the specified reading, all byte strings',
    note='Unbounded: each decode_*/skip_* function, deserialize_value (recursion and loop) and from_slice are verified, as extracted on each run, to terminate, to stay within the input, not to panic or overflow, and to accept exactly what the specification function `decode` accepts, storing the specified values. Trusted: contracts of Wip, from_be_bytes and from_utf8.',
    bounds='none in the proof; struct nesting of the target type is limited by the stack natively',
    verus=[dict(spec='msgpack', fns='(new|decode_.*|deserialize_value|from_slice.*|skip_.*|lemma_(decode|members|first|last|step|after|be8?|header|grammar|short)|cast.*|join)')],
    native=dict(crates=MP, harness=['mp'], only='m02'),
)
PROPS['M03'] = dict(
    level='proof', trusted=VTRUST, technique='Verus: lemma round_trip over the verified contracts of encoder and decoder, all values',
    note='Unbounded: round_trip proves, over the contracts that M01 and M02 discharge on the real code, that decoding enc(v) stores exactly the leaves of v in the fields they name, for any nesting, any member order (members are a sequence) and any unknown members.',
    bounds='none in the proof',
    verus=[dict(spec='msgpack', fns='(round_trip.*|lemma_(int|str|map|prefixed|be_bes|split|pw|enc_from)|skips.*)', also='(write_.*|serialize|to_vec|new|decode_.*|deserialize_value|from_slice.*|skip_.*)')],
    native=dict(crates=MP, harness=['mp'], only='m03'),
)
PROPS['M04'] = dict(
    level='proof', trusted=VTRUST, technique='Verus: skip_value against the MessagePack grammar, all byte strings and nesting depths',
    note='Unbounded: skip_value is verified to succeed exactly if a complete value of the grammar (value_end) starts at the position and then to stop exactly at its end, and deserialize_value to use it for unknown members; skips proves the encodings of all values are skipped exactly.',
    bounds='none in the proof',
    verus=[dict(spec='msgpack', fns='(skip_.*|lemma_(header|grammar|short)|skips.*)', also='(deserialize_value|decode_u8|decode_u16|decode_u32)')],
    native=dict(crates=MP, harness=['mp'], only='m04'),
)

WIPK = {'facet_reflect/wip/mod.rs': 'wipk.rs'}
WKANI = dict(crates=REFL, subs=FULL, harness=[], inner=WIPK, inner_mod='facet_reflect::wip', timeout=420)
WNAT = dict(merged=REFL, harness=['hist'], inner=WIPK, inner_paths={'facet_reflect/wip/mod.rs': 'crate::facet_reflect::wipk'})
WBOUND = 'proof: no bound on the history; types: a struct of a droppable leaf and a nested struct of two droppable leaves, an option and a list (of up to two elements) of a droppable leaf, an enum (under R05), every state and leaf value.  Maps, tuples, nested containers and deeper nesting: random histories on 30 types against a reference model, natively under ASan with drop and leak counts'
WNOTE = 'Inductive: one operation from an arbitrary state that satisfies the builder\'s invariant (stated in harness/wipk.rs over frames, per-field records and memory) is proved to keep it and to do what the model says, and alloc to establish it, so histories of any length are covered for this type family; '
PROPS['R01'] = dict(
    level='proof', trusted=RUST, technique='Kani: invariant of the builder, inductively, per operation from every state; model-based histories natively',
    note=WNOTE + 'build hands out a value exactly when all parts are held.  Maps and nested containers by model-based native histories (bounded).',
    bounds=WBOUND, kani=[dict(WKANI, only='r01_')], native=dict(WNAT, only='hist::'),
)
PROPS['R02'] = dict(
    level='proof', trusted=RUST, technique='Kani: invariant of the builder with ghost drop counts, inductively; model-based histories natively',
    note=WNOTE + 'every value made is dropped once when the builder is abandoned in any state, and replaced values at once.  Maps and nested containers by model-based native histories (bounded).',
    bounds=WBOUND, kani=[dict(WKANI, only='r02_')], native=dict(WNAT, only='hist::'),
)
PROPS['R03'] = dict(
    level='proof', trusted=RUST, technique='Kani: invariant of the builder with the value of every leaf, inductively; model-based histories natively',
    note=WNOTE + 'each leaf holds the value put in it last and no operation touches another.  Maps and nested containers by model-based native histories (bounded).',
    bounds=WBOUND, kani=[dict(WKANI, only='(r03_|r01_build_root)')], native=dict(WNAT, only='hist::'),
)


REAL = ['facet-core', 'facet-reflect', 'facet']
PROPS['R04'] = dict(
    level='proof', trusted=RUST, technique='Kani: type guards of get, put, put_shape, materialize and view comparison, all values, a fresh other type',
    note='Complete over all values: reading, putting, taking out and comparing are proved to refuse every other type (a type with a fresh, in thorough arbitrary, identity stands for all others) for each listed target, and all 24x24 pairs for reading and comparing; the builder pairs, heap types and map keys also natively under ASan. Untyped entry points (unchecked_new, put_from_fn, PeekList::new) are outside: their caller asserts the type.',
    bounds='targets: 24 types for reading and comparing, 12 for the builder; other types: none (fresh identity)',
    kani=[dict(crates=REFL, subs=FULL, harness=['r04', 'r04x'], timeout=300)],
    native=dict(crates=REAL, harness=['r04']),
)

PROPS['R05'] = dict(
    level='proof', trusted=RUST, technique='Kani: contract of enum views and of variant selection per representation; inductive step proofs of the builder on an enum',
    note='Reading: complete over all values of one derived enum per representation (all 10), five hand-written shapes with negative discriminants, and repr(C) enums. Building: every variant written and read back per representation, all field values; an inductive step proof (variant, field, put, pop, build, drop from any state) for one enum with a unit, a tuple and a struct variant. Definitions beyond these are generated natively (150, 1000 in thorough).',
    bounds='enum definitions: a finite family (18 proved, 150 generated natively); values and histories unbounded in the proofs',
    kani=[dict(WKANI, harness=['r05'], only='(r05_|^r05::)')],
    native=dict(WNAT, harness=['hist', 'r05'], only='(hist::enums|^r05::|^r05g::)', gen={'r05g': ['defs.py', 'enums', 'SEED', (150, 1000)]}),
)
PROPS['R06'] = dict(
    level='proof', trusted=RUST, technique='Kani: contract of every read-only view operation against the value itself, all values, all indexes',
    note='Complete over all values and all indexes (and all names up to the stated length) of the listed structs, tuples and options, and over the elements of vectors of the stated lengths; maps, longer lists and heap elements natively.',
    bounds='vectors of 0-3 elements (5 in thorough); names of at most 4 bytes in the proof; maps natively only',
    kani=[dict(crates=REFL, subs=FULL, harness=['r06'], timeout=300)],
    native=dict(crates=REAL, harness=['r06']),
)


JTRUST = [x.replace('verus/msgpack.rs', 'verus/json.rs') for x in VTRUST]
JS = dict(crates=REAL + ['facet-json'], harness=['js'])
PROPS['J01'] = dict(
    level='proof', trusted=JTRUST, technique='Verus: write_json_string against an independent decoder of JSON strings, all strings',
    note='Unbounded: write_json_string, as extracted from /repo on each run, is verified to write, for every string, one quoted literal with no raw quote or control character which the decoder specification (dec, written from RFC 8259) reads back as exactly that string. Trusted: contracts of Write, write!/Display of an escape, str::chars.',
    bounds='none in the proof',
    verus=[dict(spec='json', fns='(write_json_string|lemma_(esc|empty|cat|str_text|unit))')],
    native=dict(JS, only='js::(b_)?j01'),
)
PROPS['J02'] = dict(
    level='proof', trusted=JTRUST, technique='Verus: skip_over_value against the JSON grammar, all byte strings and nesting depths',
    note='Unbounded: skip_over_value (recursion, loops, the closure skipping white space) is verified, as extracted on each run, to terminate, stay within the input, succeed exactly if a complete JSON value (value_end) starts at the position and then stop exactly at its end. The contents of skipped strings (escapes, UTF-8) are not validated. The use of it by from_slice_wip is checked natively.',
    bounds='none in the proof; native stack limits nesting',
    verus=[dict(spec='json', fns='(skip_over_value|skip_whitespace|lemma_(ws|digits|str|num|value|items|members|items_ws))')],
    native=dict(JS, only='js::(b_)?j02'),
)
PROPS['J03'] = dict(
    level='proof', trusted=JTRUST, technique='Verus: the serialiser against the production relation text_ok(text, value), all values',
    note='Unbounded: serialize and the functions it calls, and the four entry points, are verified, as extracted on each run, to write a text that the productions of JSON derive for exactly this value (names, order, commas, brackets, null, the active variant). Trusted: the contracts of the reflection views (R05, R06 check them), Display of numbers, lookup of the rename attribute.',
    bounds='none in the proof',
    verus=[dict(spec='json', fns='(serialize.*|to_string|peek_to_string|to_writer|peek_to_writer|lemma_(member|item|close|begin|variant|variant_close))', also='(write_json_string|lemma_(esc|empty|cat|str_text|unit))')],
    native=dict(JS, only='js::(b_)?j03'),
)


NOT_APPLICABLE = {
    'J04': 'from_slice_wip is one 480-line loop over an explicit stack with local enums, macros and closures; its contract (the stack as a continuation of the grammar) is not discharged yet, so the property is exercised natively only (harness/js.rs, not claimed)',
}
