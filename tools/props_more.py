prop("P06", "Conversions use every term of a resource, under any interpretation",
 "Under an interpretation where resources have several terms, none, or terms are shared, hydrating and dehydrating depend only on the resources and their terms: every IRI of a datatype counts, every literal or IRI of a resource is considered, several that fit are an ambiguity and none a mismatch. Dehydration gives terms only to the resources of literals, identifiers and empty lists, and none at all when it fails.",
 ["inputs", "programs"], "all interpretations, layouts, datasets and values",
 "The tests only use interpretations where each resource has exactly one term.",
 ["layouts/src/distill/hy/mod.rs", "layouts/src/distill/hy/data.rs", "layouts/src/distill/de/mod.rs", "layouts/src/distill/de/data.rs"],
 [("hydrate_with, dehydrate_with", "layouts/src/distill"), ("literals, identifiers", "layouts/src/distill/hy/data.rs")],
 "runtime monitor: reference hydrator/dehydrator over resources and their terms as online oracle", EXPL, ["hydrate_with and dehydrate_with on user-defined and indexed interpretations; terms assigned"])

prop("P11", "Values and numbers convert losslessly to and from JSON",
 "Every JSON document converts to the tree value it denotes, each number being exactly the rational its text denotes, with either JSON library or serde. A value converts to JSON exactly when it is a JSON value (text keys, no byte strings, numbers with a decimal representation; otherwise that reason is the error), and reading the result gives back the same value. Native numbers convert exactly when they can, and the lexical form of a number reads back as the number.",
 ["inputs"], "all JSON documents, values, rational and native numbers",
 "The tests only convert small non negative integers; signs, exponents, fractions, zero and large numbers are never tried.",
 ["layouts/src/value/mod.rs", "layouts/src/value/de.rs", "layouts/src/value/ser.rs"],
 [("Value conversions", "layouts/src/value/mod.rs"), ("Number", "layouts/src/value/mod.rs")],
 "runtime monitor: exact rational arithmetic as online oracle, round trips", EXPL, ["From/TryFrom between Value and JSON values, serde, Number"])

prop("P12", "CBOR encoding is faithful and carries the tags of the layouts",
 "Every value converts to the CBOR value of the same structure: integers of any size exactly (bignums beyond 64 bits), other numbers as the nearest float, and the bytes written read back as the same CBOR value. Converting a hydrated value with tags wraps exactly the values whose layout declares a CBOR tag, with that tag; a tag that is not valid for the layout (not an integer in range, or not on a literal) is reported. The untyped value and type of a typed value are those of its layout.",
 ["inputs"], "all values, layouts with or without tags, and data",
 "CBOR has no test at all.",
 ["layouts/src/value/cbor/mod.rs", "layouts/src/value/cbor/serde_cbor.rs", "layouts/src/value/mod.rs"],
 [("try_into_tagged_serde_cbor", "layouts/src/value/cbor/serde_cbor.rs"), ("TypedValue", "layouts/src/value/mod.rs")],
 "runtime monitor: structural oracle on encoded values, decode-after-encode", EXPL, ["conversions of Value and TypedValue to serde_cbor::Value"])

prop("P13", "String patterns recognise exactly the language they denote",
 "For every regular expression the syntax supports (parsed or assembled), its automaton accepts exactly the strings of its language, printing it gives a source of the same language, and it denotes a single string exactly when that is said. Malformed sources are rejected with the corresponding error. String layouts with a pattern accept, in both directions, exactly the strings of the pattern.",
 ["inputs", "programs"], "all regular expressions and strings",
 "The few regexp tests only parse; almost no string is matched.",
 ["layouts/src/abs/regexp.rs", "layouts/src/utils/automaton.rs", "layouts/src/layout/literal/data.rs"],
 [("RegExp::parse/build", "layouts/src/abs/regexp.rs"), ("Automaton/DetAutomaton", "layouts/src/utils/automaton.rs")],
 "runtime monitor: backtracking matcher as online oracle over sampled and exhaustive words", EXPL, ["RegExp::parse, build, Display; hydration and dehydration of strings"])

prop("P14", "Automata operations preserve the language",
 "Determinizing, minimizing, compressing, mapping, renaming or serializing an automaton preserves the language it recognises, the product of two automata recognises the intersection, and the minimized automaton has the fewest states possible. An automaton describes (states, transitions, reachable states) exactly what was added to it. All of them terminate, on automata with cycles, empty transitions, overlapping labels and unreachable or dead states.",
 ["inputs", "programs"], "all finite automata and words",
 "No test exercises automata.",
 ["layouts/src/utils/automaton.rs"],
 [("Automaton, DetAutomaton", "layouts/src/utils/automaton.rs")],
 "runtime monitor: subset simulation as online oracle over all short words", EXPL, ["Automaton::determinize/product/try_map, DetAutomaton::minimize/compress/..."])

prop("P15", "Hostile inputs never make the library or the program panic or hang",
 "Whatever the bytes of a layout document, regular expression, data file or value, the dataset, the inputs (even in the wrong number) or the tree value given, reading, printing, building, hydrating, dehydrating and converting end with a result or an error: no panic, stack overflow (documents and data nested up to 200 levels) or endless loop. Errors of the located reader designate a node of the document, and documents that are accepted can be printed and read again.",
 ["inputs"], "all documents, expressions, datasets, values and files, malformed ones included",
 "The tests give well formed inputs only.",
 ["layouts/src/abs/syntax/mod.rs", "layouts/src/abs/regexp.rs", "layouts/src/distill/hy/mod.rs", "layouts/src/distill/de/mod.rs", "layouts/src/value/mod.rs", "src/main.rs"],
 [("front-ends", "layouts/src/abs"), ("conversions", "layouts/src/distill, layouts/src/value"), ("program", "src")],
 "runtime monitor: panic, signal, hang and exit status monitors over mutation workloads", EXPL, ["panics, signals and termination of each call and of tldr"])

prop("P16", "The tldr program converts files as the layouts define, or fails cleanly",
 "For every set of layout files, options (default layout, includes, formats, pretty printing, selected layout and inputs) and data on the standard input, `tldr hydrate`, `dehydrate` and `convert` write exactly the result the layouts define in the format requested (JSON, CBOR, N-Quads) and exit with 0. If a file, option or the data is faulty, nothing is written on the standard output, the error is reported (for a faulty layout at its file, line and column), and the exit status is not 0.",
 ["inputs", "configurations"], "all layout files, options, formats and inputs, including faulty ones",
 "The program has no test.",
 ["src/main.rs", "src/rdf.rs", "src/format/tree.rs", "layouts/src/distill/mod.rs"],
 [("main", "src/main.rs"), ("formats", "src/format, src/rdf.rs")],
 "runtime monitor: reference model over observed program runs, fault injection", EXPL, ["standard output, error output and exit status of tldr"])

prop("P17", "Derived Rust conversions behave as the layout the attributes declare",
 "For every type whose `#[tldr(..)]` attributes declare a well formed layout, deriving `SerializeLd` and `DeserializeLd` compiles, and: deserializing gives the value that hydrating the same data with that layout gives (fields, variants, items, literals, identifiers; whatever the graph, inputs and interpretation), and fails when that fails; serializing a value emits exactly the quads, and gives resources exactly the terms, that dehydrating it emits and gives. Neither panics, and cyclic data does not make it hang. The constants passed as inputs or graphs are known to the interpretation.",
 ["inputs", "programs"], "all declarations, values, datasets, graphs, inputs and interpretations",
 "Five test types are derived; most only check that it compiles, on one value or dataset each, in the default graph with one term per resource.",
 ["generators/rust/treeldr-rs-macros/src/generate/de.rs", "generators/rust/treeldr-rs-macros/src/generate/ser.rs", "generators/rust/treeldr-rs-macros/src/parse.rs", "generators/rust/treeldr-rs/src/de/matching.rs", "generators/rust/treeldr-rs/src/pattern.rs", "generators/rust/treeldr-rs/src/ser/environment.rs", "generators/rust/treeldr-rs/src/datatypes.rs"],
 [("derive(SerializeLd, DeserializeLd)", "generators/rust/treeldr-rs-macros"), ("runtime of the derived code", "generators/rust/treeldr-rs")],
 "runtime monitor: reference hydrator/dehydrator as online oracle of derived conversions", EXPL, ["deserialize_ld_with and serialize_ld_with of 107 derived types; compilation of the derived code"])

prop("P18", "Types generated from a layout describe that same layout",
 "For record, sum, list, tuple, set and literal layouts whose fields and variants are identifiers and whose constants are IRIs, the Rust types generated from a compiled layout (by the library, by `tldr_include!` and `tldr`, and by the `tldr-rs` program) carry attributes that declare that same layout: inputs, introduced variables, datasets, graphs, resources, datatypes, required and optional fields, and which types refer to which (the preset types, the module with the longest matching prefix, or the name made from the last segment of the IRI). Such types compile, and convert as the layout defines (P17). A layout that cannot be expressed, or a file that is not a layout, is an error (a non zero exit status), never a panic or a partial result.",
 ["inputs", "programs"], "all layouts of the kinds listed, names, module prefixes, values and datasets",
 "No test calls the generator or the macros that use it.",
 ["generators/rust/generator/src/lib.rs", "generators/rust/generator/src/utils.rs", "generators/rust/generator/src/bin/main.rs", "generators/rust/treeldr-rs-macros/src/lib.rs"],
 [("generate", "generators/rust/generator/src/lib.rs"), ("tldr_include!", "generators/rust/treeldr-rs-macros/src/lib.rs")],
 "runtime monitor: independent reader of the generated attributes compared with the source layout, and reference oracle of the compiled types", EXPL, ["tokens returned by generate and printed by tldr-rs; conversions of 102 types compiled from generated code"])

prop("P19", "Layout registries, the prelude and serialized layouts keep their definitions",
 "Combining layout collections resolves each layout to the definition of the first registry, in order of precedence, that has one (`with` and `into_with` give precedence to the receiver; absent registries define nothing), for lookups and for conversions alike. The prelude provides exactly its 12 layouts with their datatypes, under any vocabulary and interpretation. Collections and builders return, list (in order) and replace what was inserted, a builder keeping its definition on `get_or_insert_with`; references keep their identifier across casts; layouts report their exact dependencies, inputs and extra properties, compare as their contents, and survive serialization.",
 ["inputs", "histories"], "all layouts, combinations of registries, insertion histories and conversions",
 "The tests use a single collection, and the prelude once; no test redefines, lists, compares or serializes compiled layouts.",
 ["layouts/src/lib.rs", "layouts/src/prelude.rs", "layouts/src/preset.rs", "layouts/src/ref.rs", "layouts/src/format.rs", "layouts/src/layout/mod.rs", "layouts/src/abs/mod.rs"],
 [("LayoutRegistry, Layouts", "layouts/src/lib.rs"), ("Builder", "layouts/src/abs/mod.rs"), ("Prelude", "layouts/src/prelude.rs"), ("Ref", "layouts/src/ref.rs"), ("Layout", "layouts/src/layout")],
 "runtime monitor: model of the registries and reference conversions as online oracles", EXPL, ["LayoutRegistry::get/with/into_with, Layouts, Prelude, Ref, serde of Layout, hydrate and dehydrate on unions"])

prop("P20", "Layouts can be used from several threads, without undefined behaviour",
 "Using the library through its safe interface never causes undefined behaviour (invalid memory accesses, uses after free, uninitialized or invalid values, data races, broken preconditions of unsafe functions). The outcome of building layouts, hydrating and dehydrating depends only on the layouts and the data given: any number of threads sharing the same layouts, in any order and interleaving, while others build and drop layouts (of the same or other definitions under the same names), get the results a single thread gets, however often they are repeated.",
 ["schedules", "inputs", "histories"], "all layouts, data, schedules and sequences of calls",
 "The tests are sequential, convert one value each in a process, and run without sanitizers.",
 ["layouts/src/ref.rs", "layouts/src/abs/regexp.rs", "layouts/src/utils/automaton.rs", "layouts/src/abs/syntax/pattern/variable.rs", "layouts/src/layout/mod.rs", "layouts/src/value/mod.rs", "layouts/src/distill/mod.rs"],
 [("Ref::new_ref, as_casted", "layouts/src/ref.rs"), ("RegExp::push, repeat", "layouts/src/abs/regexp.rs"), ("Layouts: Send + Sync", "layouts/src/layout/mod.rs"), ("conversions", "layouts/src/distill")],
 "AddressSanitizer, ThreadSanitizer and Miri; runtime monitor: sequential results and reference model as oracles of concurrent runs", EXPL, ["memory accesses and synchronisation under ASan, TSan and Miri; outcomes of concurrent hydrate, dehydrate and builds"])
