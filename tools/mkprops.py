#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))

EXPL = "Held on every execution monitored (random, adversarially shaped workloads); nothing is claimed for inputs not run. Trusts the reference model in harness/src and the rdf-types, xsd-types and json-syntax dependencies."

prop("P01", "Hydration computes the tree value the layouts define",
 "For every set of compiled layouts, RDF dataset, input resources and current graph for which the layout matches the data without ambiguity, hydration succeeds and returns exactly the tree value the layout defines (record keys, variant, item multiset or order, literal value and kind, constants, and the layouts recorded with the typed value). Every component is matched in its own graph (kept, default or selected by the format) and with its own variables and inputs.",
 ["inputs", "programs"], "all layouts (programs over RDF data), datasets, input resources and current graphs",
 "The layout tests hydrate about 25 fixed documents; graphs, several inputs, shadowed or repeated variables, nested sums, recursion and literal patterns are sampled at most once each.",
 ["layouts/src/distill/hy/mod.rs", "layouts/src/distill/hy/data.rs", "layouts/src/matching.rs", "layouts/src/pattern.rs"],
 [("hydrate_with_ref", "layouts/src/distill/hy/mod.rs"), ("Matching", "layouts/src/matching.rs")],
 "runtime monitor: reference hydrator as online oracle on random workloads", EXPL, ["treeldr_layouts::hydrate / hydrate_with"])

prop("P02", "Hydration rejects data that does not fit, with the right class of error",
 "When the data does not fit the layout, or fits it in several ways, hydration returns an error and never a value: missing data (required field, pattern, constant, list node), ambiguous data (several bindings, several variants), a literal of another datatype, kind or pattern, an unknown layout or a wrong number of inputs are each reported as that class of failure. It never panics and always terminates, including on cyclic data and recursive layouts.",
 ["inputs", "programs"], "all layouts, datasets (including cyclic, mutilated and duplicated ones), inputs and graphs",
 "The tests only hydrate data that fits; no test looks at a failing hydration.",
 ["layouts/src/distill/hy/mod.rs", "layouts/src/distill/hy/data.rs", "layouts/src/matching.rs"],
 [("hy::Error", "layouts/src/distill/hy/mod.rs"), ("Matching::into_unique/into_required_unique", "layouts/src/matching.rs")],
 "runtime monitor: reference hydrator as online oracle on mutated workloads", EXPL, ["treeldr_layouts::hydrate / hydrate_with"])

prop("P03", "Dehydration emits exactly the quads the layouts define",
 "For every layout and every value that fits it, dehydration succeeds and the dataset it returns is, up to renaming of the blank nodes it generates, exactly the one the layout describes for this value (no quad missing, added, or placed in another graph, literals with the layout's datatype), together with as many subjects as the layout has inputs, in order.",
 ["inputs", "programs"], "all layouts, values that fit them, and dehydration options",
 "The layout tests dehydrate about 25 fixed values.",
 ["layouts/src/distill/de/mod.rs", "layouts/src/distill/de/data.rs"],
 [("dehydrate_with", "layouts/src/distill/de/mod.rs"), ("Environment", "layouts/src/distill/de/mod.rs")],
 "runtime monitor: reference dehydrator and dataset isomorphism as online oracle", EXPL, ["treeldr_layouts::distill::dehydrate(_with)"])

prop("P04", "Dehydration rejects values that do not fit the layout",
 "When the value does not fit the layout (wrong kind, unknown key, missing required field, wrong tuple length, wrong constant, number outside the datatype, string or identifier outside the pattern, no variant, a sum that only leads back to itself) or determines a variable in two incompatible ways, dehydration returns an error of that class, never a dataset, never a panic, and always terminates.",
 ["inputs", "programs"], "all layouts and values that do not fit them",
 "No test looks at a failing dehydration.",
 ["layouts/src/distill/de/mod.rs", "layouts/src/distill/de/data.rs"],
 [("de::Error", "layouts/src/distill/de/mod.rs")],
 "runtime monitor: reference dehydrator as online oracle on perturbed values", EXPL, ["treeldr_layouts::distill::dehydrate(_with)"])

prop("P05", "Dehydration then hydration gives back the value",
 "For every layout that determines the data from the value (distinct properties, literal identifiers), dehydrating a value and hydrating the dataset from the returned subjects gives back the same value, and dehydrating that one gives an isomorphic dataset. This holds in any current graph and when the dataset also contains the dehydration of other values.",
 ["inputs", "programs", "histories"], "all reversible layouts, values and sequences of conversions",
 "The tests perform the two conversions separately on fixed values.",
 ["layouts/src/distill/hy/mod.rs", "layouts/src/distill/de/mod.rs"],
 [("hydrate_with", "layouts/src/distill/hy/mod.rs"), ("dehydrate_with", "layouts/src/distill/de/mod.rs")],
 "runtime monitor: round-trip oracle over random layouts and values", EXPL, ["hydrate and dehydrate composed"])

prop("P07", "Pattern matching finds every match exactly once",
 "Matching a set of quad patterns against a dataset under a partial substitution yields exactly the substitutions of the remaining variables under which every pattern is in the dataset (a missing graph meaning the current graph), each one once, and reports emptiness, uniqueness and ambiguity accordingly.",
 ["inputs"], "all datasets, pattern sets and partial substitutions",
 "No test exercises the matching on its own.",
 ["layouts/src/matching.rs", "layouts/src/pattern.rs", "layouts/src/graph.rs"],
 [("Matching", "layouts/src/matching.rs"), ("PatternQuad::matching", "layouts/src/pattern.rs")],
 "runtime monitor: brute-force matcher as online oracle", EXPL, ["treeldr_layouts::matching::Matching"])

prop("P08", "Results do not depend on accidents of representation",
 "Hydration gives the same result when quads are inserted in another order, blank nodes are renamed, quads about unrelated resources or unrelated layouts are added, and dehydration gives isomorphic datasets whatever the blank node generator. The generated nodes are fresh: they never coincide with each other or with resources of the value or of the layouts.",
 ["inputs", "histories", "configurations"], "all data, insertion orders, renamings, additions of unrelated data and generators",
 "Each test has one order, one naming and one generator.",
 ["layouts/src/distill/hy/mod.rs", "layouts/src/distill/de/mod.rs", "layouts/src/distill/mod.rs", "layouts/src/layout/mod.rs"],
 [("hydrate_with", "layouts/src/distill/hy/mod.rs"), ("Options, RdfContextMut", "layouts/src/distill")],
 "runtime monitor: metamorphic oracle over paired executions", EXPL, ["paired runs of hydrate / dehydrate"])

prop("P09", "The two layout syntaxes readers agree and report faults where they are",
 "Every layout document is read identically by the serde reader and by the located JSON reader, and printing the layout gives a document that both read as the same layout. A document with a fault (value of the wrong kind, unknown, missing or duplicate entry, unknown type, invalid regular expression, language tag, or quad) is rejected, by the located reader with the error of that kind whose position is the faulty fragment of the document.",
 ["inputs"], "all layout documents, and all single faults in them",
 "The tests read valid documents, with one reader each.",
 ["layouts/src/abs/syntax/mod.rs", "layouts/src/abs/syntax/layout", "layouts/src/abs/syntax/pattern", "layouts/src/abs/syntax/dataset.rs"],
 [("TryFromJson for Layout", "layouts/src/abs/syntax"), ("Deserialize/Serialize for Layout", "layouts/src/abs/syntax")],
 "runtime monitor: differential oracle between the readers, fault injection with known positions", EXPL, ["Layout::try_from_json_at, serde_json::from_str, serde_json::to_string"])

prop("P10", "Compiling layout documents resolves every name as specified",
 "Compiling layout documents yields exactly the layouts they describe: variables are resolved lexically (inputs, intro, component intro, innermost last declaration first), IRIs and compact IRIs against the base and prefixes in scope, properties become the quad from the layout's first input to the component's first value, defaults are filled in, anonymous layouts get distinct identifiers and every reference denotes the layout it names. A document with an undeclared variable, a relative IRI without base, an invalid IRI, a second definition of an identifier, a property without subject or object, or a literal without resource is rejected with that error.",
 ["inputs", "histories"], "all layout documents and sequences of documents compiled in one builder",
 "The tests compile about 25 documents and never a faulty one.",
 ["layouts/src/abs/mod.rs", "layouts/src/abs/syntax", "layouts/src/abs/layout", "layouts/src/layout"],
 [("Builder, Scope", "layouts/src/abs/mod.rs, layouts/src/abs/syntax/build.rs")],
 "runtime monitor: reference compiler as online oracle, component by component", EXPL, ["Layout::build, Builder, Layouts"])

EXTRA = os.path.join(HERE, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

claimed = [p for p in P if not p.get("na")]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": globals().get("NA", []),
    "notes": "Known findings and repairs: known-findings.txt. Design: DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")

# DESIGN.md
text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
how = {}
exec(open(os.path.join(HERE, "tools", "how.py")).read())
props = ["## Properties, and how each is decided\n"]
for p in P:
    props.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n{how[p['id']].strip()}\n")
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
caught = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s, '?')} |")
text = text.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
