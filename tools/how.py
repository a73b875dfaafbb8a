how["P01"] = """Monitored: each `hydrate_with` call on data the reference hydrator accepts. Oracle: the typed value (layout references included) equals the reference's, for lists without order as multisets. Workload: random layouts (nested sums, records, tuples, lists, sets, literals, several inputs, shadowing, graph selection, recursion, literal patterns) with datasets made by the reference dehydrator in various graphs and then mutated. Cost: about 10 s quick. Reach: the tests hydrate fixed documents; here about 10^5 layouts and datasets are seen per quick run."""
how["P02"] = """Monitored: `hydrate_with` calls on data that the reference rejects (removed, duplicated, moved, altered quads, wrong inputs, missing layouts, cycles). Oracle: the class of the error (missing, ambiguous, incompatible, literal, layout not found, input count) is among those the reference computed; panics, stack overflows and hangs are violations. Where several errors are possible any of them is allowed."""
how["P03"] = """Monitored: `dehydrate` and `dehydrate_with` on values the reference accepts. Oracle: isomorphism between the datasets (backtracking on generated blank nodes, with colour refinement), equality of the subjects under it; terms for the inputs and generated nodes come from the generators given as options."""
how["P04"] = """Monitored: `dehydrate` on values perturbed until the reference rejects them. Oracle: an error of a class the reference computed."""
how["P05"] = """Monitored: the composition of dehydration and hydration, over layouts the reference finds reversible for the value. Oracle: equality of values, isomorphism of the datasets."""
how["P06"] = """Monitored: `hydrate_with` and `dehydrate_with` under two interpretations, a harness one where groups of terms (IRIs, literals, blank nodes, datatypes, predicates) denote one resource, and rdf_types' `Indexed` one, both with additional IRIs and literals assigned to resources. Oracle: the reference hydrator and dehydrator, working on resources with sets of names; the terms given to resources are compared before and after, also on failure. When several terms could be assigned to a resource any is allowed (the run is not judged)."""
how["P07"] = """Monitored: the iterator of matches of `Matching` and its `into_unique` forms. Oracle: enumeration of all the substitutions over the resources of the dataset; each must be produced exactly once. Also `Substitution` alone: one pattern against one quad (`with_quad`), `intro`, `set`, `apply`."""
how["P08"] = """Monitored: pairs of executions on equivalent inputs (permuted insertions, renamed blank nodes, unrelated data and layouts, other generators). Oracle: equal values, same error class, isomorphic datasets, freshness of generated nodes."""
how["P09"] = """Monitored: both readers and the printer on random documents; then each document with one injected fault at a known place. Oracle: structural equality of the layouts; the fault is rejected with its kind of error at its fragment index. `null` entries and duplicate keys are not judged for serde."""
how["P10"] = """Monitored: `Layout::build` over sequences of documents in one `Builder`. Oracle: a reference compiler; the resulting layouts are compared component by component through the public accessors, modulo the anonymous identifiers (which must be distinct). Faulty documents must fail with the reference's error."""
how["P11"] = """Monitored: conversions between JSON texts, `json_syntax::Value`, `serde_json::Value`, serde, `Value`, `Number` and native numbers. Oracle: exact rational arithmetic on the lexical forms (exponents, fractions, signs), round trips, the reason why a value is not JSON. About 10^6 conversions per quick run."""
how["P12"] = """Monitored: `Value`/`TypedValue`/`Number` to `serde_cbor::Value` (with and without tags), then the bytes. Oracle: structural comparison with the value (exact integers, bignum tags 2 and 3, nearest floats), the tags expected from the documents' extra properties, decode after encode; the same layouts and data under rdf_types' `Indexed` interpretation must give the same CBOR."""
how["P13"] = """Monitored: parsing, building, printing and using as a layout pattern random expressions. Oracle: a backtracking matcher written independently (`rx.rs`), on words sampled from the language, mutations of them, and all the words of length at most 3 over the characters at the bounds of the expression's classes; about 1.5 10^7 decisions per quick run."""
how["P14"] = """Monitored: every operation of `Automaton` and `DetAutomaton` on random automata, and editing histories of deterministic automata. Oracle: simulation of the non deterministic automaton on all short words over representatives of every class of characters; Myhill-Nerode count for minimality."""
how["P15"] = """Monitored: panics (a hook records message and place), signals and stack overflows (each batch runs in a child process that journals the running case), hangs (a watchdog), exit status of the program. Workload: documents mutated in structure or text, random documents over the vocabulary of layouts, expressions made of metacharacters, random cyclic datasets and ill-shaped values for valid layouts, mutated JSON, deep lists, chains and documents, mutated files for `tldr`. Oracle: none of these; also error positions inside the document, printed documents accepted again. Not explored: expressions whose automaton is inherently exponential, exponents of more than 4 digits (both need the memory they ask for), and the listed findings."""
how["P16"] = """Monitored: runs of the `tldr` binary built from /repo (files in a scratch directory, data on stdin): exit status, stdout, stderr. Oracle: the reference compiler, hydrator and dehydrator; decoded outputs are compared as values or up to isomorphism. Faults are injected at known positions and the reported `file:line:column` compared. About 20 000 runs per quick check."""
how["P19"] = """Monitored: lookups and conversions through unions of 1 to 4 registries of several types (collections, references, options, a user-defined registry, the prelude) in every nesting, where layers redefine or omit layouts; insertion histories of collections and builders; comparisons of layouts with slightly changed copies; CBOR and JSON round trips of compiled layouts; each prelude layout at the limits of its datatype, with terms and with an index vocabulary. Oracle: a map of the effective definitions given to the reference hydrator and dehydrator, a `BTreeMap` model of collections."""
how["P17"] = """Monitored: the conversions derived for 107 generated types (`tools/gen_derive.py`: all kinds of layouts, several inputs, introduced variables, graphs, nested and recursive types), under the two interpretations of P06, in random current graphs. Oracle: the layout each declaration stands for, given to the reference hydrator and dehydrator: value, rejection or isomorphic quads and terms. The derived types are in a binary of their own: if the code derived for one of them does not compile while the rest does, that is reported. Not judged: numbers beyond the native type, values that several choices of terms allow, IRIs with several resources as datatypes; constants passed as inputs or graphs are made known to the interpretation first. The listed finding (cyclic data through a recursive type) is excluded and probed apart."""

how["P20"] = """Monitored: (1) natively, random layouts shared by 2 to 6 threads that each run the same hydrations, dehydrations and builds, started together, each from another job and with random yields; the layouts are shared, or (before anything else in the process) built by each thread (`props/shared.rs`; the evidence counts the conversions started while another one ran). Oracle: the outcome of the sequential run, which is itself checked against the reference hydrator and dehydrator, so that state kept from an earlier case shows. Which error is reported is not compared. (2) `san.py` builds the harness with AddressSanitizer and runs the cases of all the library monitors (P01 to P15, P19, P20) in 8 processes; (3) with ThreadSanitizer (standard library included), on the multi-threaded cases, in about 2,500 new processes (races on the first use of anything) and 4 long ones; (4) under Miri, with different scheduling seeds: new processes, and 8 long ones on small cases of 11 monitors. Compiled layouts with undeclared variables are converted too: panics are documented there, so only the sanitizers and signals judge. Any report is a violation (exhaustion of the stack or memory excepted), replayed by tool, seed and case. Miri runs without the (experimental) aliasing rules: `raw-btree`, a dependency, breaks Stacked Borrows in every dataset. A tool that cannot be built gives no verdict and is listed as such in the evidence. Bounds: time (50 s ASan, 80 s TSan, 130 s Miri in the quick check, which is about 22,000, 8,000 and 70 cases); the derived code (`vd`) is not run under the sanitizers."""
how["P18"] = """Monitored: (1) the tokens `generate` returns for compiled random layouts (all constructors, IRIs of many shapes, module prefixes that nest), in 3% of cases also those printed by `tldr-rs` on the layouts' files; (2) the conversions of 102 types compiled from generated code (`tldr_include!` of `harness/src/generated/layouts/*.json`, and a module under `tldr`). Oracle of (1): a reader of Rust items and `tldr` attributes written apart (syn), with its own model of the names, rebuilds the declared layout as a document, the reference compiler compiles it, and the result must be the source layout; a layout outside of the statement must be an error or still be faithful. Oracle of (2): as P17, with the source layout. If the code generated for one of the compiled types does not compile while the harness does, that is reported. Not judged: the kinds the statement leaves out (there, only panics), and cyclic data through recursive types (listed finding of P17)."""
for _p in ("P10", "P11", "P19"):
    how[_p] = how[_p].strip() + " Run again on fewer cases in the build of `generated/`, where serde_json has its `arbitrary_precision` feature (as in the workspace of /repo), which changes how numbers are deserialized."
