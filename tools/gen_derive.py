#!/usr/bin/env python3
"""gen_derive.py: writes harness/src/derive/types.rs, the types whose derived
conversions P17 monitors, with the layouts they stand for (development tool,
deterministic; its output is committed)."""
import os, random
R = random.Random(20261118)
EX = "https://ex.org/"
out, entries, generated, NOT_GENERATED = [], [], [], set()
types = []  # (name, n_inputs)
FIELDS = ["a", "b", "c", "d"]
NATIVE = {"String": "string", "i64": "long", "i32": "int", "i16": "short", "i8": "byte",
          "u64": "unsignedLong", "u32": "unsignedInt", "u16": "unsignedShort", "u8": "unsignedByte"}
XSD = "http://www.w3.org/2001/XMLSchema#"


def s(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'


def expand(i):
    if i.startswith("ex:"):
        return EX + i[3:]
    if i.startswith("xsd:"):
        return XSD + i[4:]
    return i


def pat(p):
    return f"Pat::var({s(p[2:])})" if p.startswith("_:") else f"Pat::Iri({s(expand(p))}.into())"


def opt(x):
    return "None" if x is None else f"Some({x})"


def strs(v):
    return "vec![" + ", ".join(f"{s(x)}.into()" for x in v) + "]"


def quad(q):
    return f"QuadP({pat(q[0])}, {pat(q[1])}, {pat(q[2])}, {opt(pat(q[3]) if len(q) > 3 else None)})"


def quads(d):
    return "vec![" + ", ".join(quad(q) for q in d) + "]"


def aquads(d):
    return "dataset(" + ", ".join("(" + ", ".join(s(x) for x in q) + ")" for q in d) + ")"


class Ty:
    """A type under construction."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.n = 0
        self.attrs = []
        self.input, self.intro, self.dataset = None, [], []

    def prop(self):
        self.n += 1
        return f"ex:{self.name.lower()}p{self.n}" if R.random() < .7 else f"ex:p{R.randrange(5)}"

    def header(self, rich=True):
        x = R.random()
        if x < .75:
            self.vars = ["self"]
        elif x < .85:
            self.input = ["a"]
            self.vars = ["a"]
        else:
            self.input = R.choice([["a", "b"], ["self", "b"], ["b", "self"]])
            self.vars = list(self.input)
        self.inputs = len(self.vars)
        if rich and R.random() < .45:
            for v in R.choice([["v"], ["v", "w"], ["w"]]):
                self.intro.append(v)
                src = R.choice(self.vars)
                q = ("_:" + src, self.prop(), "_:" + v)
                if R.random() < .15:
                    q = ("_:" + v, self.prop(), "_:" + src)
                if R.random() < .15:
                    q += ("ex:g" + str(R.randrange(2)),)
                if R.random() < .12:
                    q = q[:1] + ("_:" + R.choice(self.vars),) + q[2:]
                self.dataset.append(q)
                self.vars.append(v)
        if R.random() < .3:
            self.dataset.append(("_:" + R.choice(self.vars), "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", f"ex:T{R.randrange(3)}"))
        if R.random() < .06:
            v = R.choice(self.vars)
            self.dataset.append(("_:" + v, self.prop(), "_:" + v))

    def header_attrs(self):
        a = []
        if self.input:
            a.append("input(" + ", ".join(s(x) for x in self.input) + ")")
        if self.intro:
            a.append("intro(" + ", ".join(s(x) for x in self.intro) + ")")
        if self.dataset:
            a.append(aquads(self.dataset))
        return a

    def head(self):
        return f"Header {{ id: Some({s(EX + self.name)}.into()), input: {opt(strs(self.input) if self.input else None)}, intro: {strs(self.intro)}, dataset: {quads(self.dataset)}, ..Header::default() }}"

    def comp(self, variant=False, node=False, required=False, child=None):
        """Returns (attrs, child, Comp source or node parts)."""
        child, n = child or pick()
        vars_ = list(self.vars)
        attrs, intro, dataset, inp, prop, graph = [], None, [], None, None, None
        if node:
            hn, rn = node
            vars_ += [hn, rn]
        simple = R.random() < (.45 if not variant else .35) and n == 1 and not node
        if variant and simple and self.vars[:1] == ["self"] and "self" in self.vars and R.random() < .5:
            # the variant is the resource itself.
            if R.random() < .6:
                dataset = [("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", f"ex:V{R.randrange(4)}")]
        elif not variant and simple and "self" in self.vars:
            prop = self.prop()
        else:
            k = n
            if not variant and n == 1 and R.random() < .5:
                names = ["value"]
            else:
                names = [f"x{i}" for i in range(k)]
                if R.random() < .2:
                    names.append("y")
                if R.random() < .12:
                    names = names + [R.choice(vars_)] if not (node and False) else names
                intro = names
            names = list(dict.fromkeys(names))
            if intro is not None:
                intro = names
            scope = [v for v in vars_ if v not in names]
            if not scope:
                scope = [v for v in names]
            known = list(scope)
            for v in names:
                src = R.choice(known)
                q = ("_:" + src, self.prop(), "_:" + v)
                if R.random() < .12:
                    q += ("ex:g" + str(R.randrange(2)),)
                if R.random() < .12:
                    q = q[:1] + ("_:" + R.choice(known),) + q[2:]
                dataset.append(q)
                known.append(v)
                if R.random() < .04:
                    w = R.choice(known)
                    dataset.append(("_:" + w, "_:" + w if R.random() < .3 else self.prop(), "_:" + w))
            allv = list(dict.fromkeys(vars_ + names))
            cand = names if len(names) >= n else allv
            if names == ["value"] and n == 1 and R.random() < .7:
                inp = None
            else:
                inp = ["_:" + x for x in R.sample(names, min(n, len(names)))]
                while len(inp) < n:
                    inp.append("_:" + R.choice(allv))
                if R.random() < .05:
                    inp[-1] = "ex:n" + str(R.randrange(3))
            if variant and inp is None:
                inp = ["_:value"]
            if R.random() < .12:
                gv = "gv"
                q = dataset[0]
                dataset[0] = q[:3] + ("_:gv",)
                if intro is None:
                    intro = ["value"]
                intro = intro + ["gv"]
                if R.random() < .6:
                    graph = 'Some("_:gv")'
        if graph is None and R.random() < .2:
            graph = R.choice(["None", 'Some("ex:g0")', 'Some("ex:g1")', "_", "None"])
        if node and intro is None:
            pass
        if prop:
            attrs.append(s(prop))
        if intro is not None:
            attrs.append("intro(" + ", ".join(s(x) for x in intro) + ")")
        if dataset:
            attrs.append(aquads(dataset))
        if inp is not None:
            attrs.append("input(" + ", ".join(s(x) for x in inp) + ")")
        if graph is not None:
            attrs.append(f"graph({graph})")
        g = {None: "GraphA::Keep", "_": "GraphA::Keep", "None": "GraphA::Default"}.get(graph)
        if g is None:
            g = f"GraphA::Pat({pat(graph[6:-2])})"
        fmt = f"Fmt::Format(LRef::Ref({s(ref(child))}.into()), {opt('vec![' + ', '.join(pat(x) for x in inp) + ']' if inp is not None else None)}, {g})"
        i = opt(strs(intro) if intro is not None else None)
        if node:
            return attrs, child, (i, fmt, opt(quads(dataset)))
        c = f"Comp {{ intro: {i}, fmt: {fmt}, dataset: {quads(dataset)}, property: {opt(pat(prop) if prop else None)}, required: {str(required).lower()} }}"
        return attrs, child, c


def ref(t):
    return EX + t


def pick():
    if R.random() < .5 or not types:
        return R.choice(["String", "String", "i64", "i32", "u8", "u64", "i8"]), 1
    return R.choice(types[-14:])


def attr(a):
    return f"\t#[tldr({', '.join(a)})]\n" if a else ""


def emit(t, decl, lay, tv, deps):
    head = 'prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#")'
    attrs = f"#[tldr({head})]\n"
    a = list(t.attrs) + t.header_attrs()
    R.shuffle(a)
    if a:
        if R.random() < .3 and len(a) > 1:
            k = R.randrange(1, len(a))
            attrs += f"#[tldr({', '.join(a[:k])})]\n#[tldr({', '.join(a[k:])})]\n"
        else:
            attrs += f"#[tldr({', '.join(a)})]\n"
    out.append(f"#[derive(SerializeLd, DeserializeLd)]\n{attrs}{decl}\n\n{tv}\n")
    text = attrs + decl
    entries.append((t.name, lay, sorted(set(deps)), text))
    # generated from the layout as well, when the generator handles it.
    if t.name != "Raw" and "Hex" not in decl and "xsd:integer" not in attrs and not NOT_GENERATED & set(deps):
        asid = decl[decl.index("\n\nimpl") + 2:] + "\n\n" if "\n\nimpl" in decl else ""
        generated.append(asid + tv + "\n")
    else:
        NOT_GENERATED.add(t.name)
    types.append((t.name, t.inputs))


def tv(name, to, gen):
    return f"impl Tv for {name} {{\n\tfn to_value(&self) -> Value {{\n\t\t{to}\n\t}}\n\tfn gen(rng: &mut Rng, depth: usize) -> Self {{\n\t\tlet _ = (&rng, depth);\n\t\t{gen}\n\t}}\n}}"


COUNT = [0]


def name():
    COUNT[0] += 1
    return f"T{COUNT[0]}"


def literal():
    t = Ty(name(), None)
    t.header()
    res = None
    if t.intro and R.random() < .8 or len(t.vars) > 1 and R.random() < .5:
        res = "_:" + R.choice(t.vars)
    if res is None and "self" not in t.vars:
        res = "_:" + R.choice(t.vars)
    if res:
        t.attrs.append(f"resource({s(res)})")
    res_src = opt(pat(res) if res else None)
    k = R.choice(["boolean", "number", "number", "string", "string", "id", "bytes", "unit"])
    if k == "boolean":
        t.attrs.append("boolean")
        if R.random() < .4:
            t.attrs.append('datatype("xsd:boolean")')
            dt = f"Some({s(XSD + 'boolean')}.into())"
        else:
            dt = "None"
        emit(t, f"pub struct {t.name}(pub bool);", f"Lay::Boolean({t.head()}, {res_src}, {dt})",
             tv(t.name, "Value::Literal(Literal::Boolean(self.0))", f"{t.name}(rng.pct(50))"), [])
    elif k == "number":
        ty = R.choice([n for n in NATIVE if n != "String"])
        dt = NATIVE[ty]
        if ty == "i64" and R.random() < .4:
            dt = "integer"
        t.attrs += ["number", f'datatype("xsd:{dt}")']
        emit(t, f"pub struct {t.name}(pub {ty});", f"Lay::Number({t.head()}, {res_src}, {s(XSD + dt)}.into())",
             tv(t.name, "self.0.to_value()", f"{t.name}(Tv::gen(rng, depth))"), [])
    elif k == "string":
        t.attrs.append("string")
        dt = R.choice([None, None, "xsd:string", "xsd:token", "ex:D"])
        if dt:
            t.attrs.append(f"datatype({s(dt)})")
        emit(t, f"pub struct {t.name}(pub String);",
             f"Lay::Str({t.head()}, {res_src}, {opt(s(expand(dt)) + '.into()' if dt else None)}, None)",
             tv(t.name, "self.0.to_value()", f"{t.name}(Tv::gen(rng, depth))"), [])
    elif k == "bytes":
        t.attrs += ["bytes", 'datatype("xsd:hexBinary")']
        emit(t, f"pub struct {t.name}(pub Hex);", f"Lay::Bytes({t.head()}, {res_src}, {s(XSD + 'hexBinary')}.into())",
             tv(t.name, "self.0.to_value()", f"{t.name}(Tv::gen(rng, depth))"), [])
    elif k == "id":
        t.attrs.append("id")
        emit(t, f"pub struct {t.name}(pub rdf_types::Id);\n\nimpl treeldr::AsId for {t.name} {{\n\tfn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {{\n\t\tself.0.as_lexical_id_ref()\n\t}}\n}}",
             f"Lay::Id({t.head()}, {res_src}, None)",
             tv(t.name, "self.0.to_value()", f"{t.name}(Tv::gen(rng, depth))"), [])
    else:
        t.attrs = [a for a in t.attrs if not a.startswith("resource")]
        if R.random() < .5:
            t.attrs.append("unit")
        emit(t, f"pub struct {t.name};", f"Lay::Unit({t.head()}, None)",
             tv(t.name, "Value::Literal(Literal::Unit)", f"{t.name}"), [])


def record():
    t = Ty(name(), None)
    t.header()
    if R.random() < .3:
        t.attrs.append("record")
    fields, lays, deps = [], [], []
    names = R.sample(FIELDS, R.choice([0, 1, 2, 2, 3, 3, 4]))
    tos, gens = [], []
    for n in names:
        req = R.random() < .5
        a, c, comp = t.comp(required=req)
        deps.append(c)
        fields.append(f"{attr(a)}\tpub {n}: {c if req else f'Option<{c}>'},")
        lays.append(f"({s(n)}.into(), {comp})")
        if req:
            tos.append(f'm.insert(text({s(n)}), self.{n}.to_value());')
            gens.append(f"{n}: Tv::gen(rng, depth + 1),")
        else:
            tos.append(f'if let Some(v) = &self.{n} {{ m.insert(text({s(n)}), v.to_value()); }}')
            gens.append(f"{n}: if rng.pct(60) {{ Some(Tv::gen(rng, depth + 1)) }} else {{ None }},")
    body = "\n".join(fields)
    emit(t, f"pub struct {t.name} {{\n{body}\n}}", f"Lay::Record({t.head()}, vec![{', '.join(lays)}])",
         tv(t.name, "#[allow(unused_mut)]\n\t\tlet mut m = BTreeMap::new();\n\t\t" + "\n\t\t".join(tos) + "\n\t\tValue::Map(m)",
            f"{t.name} {{ {' '.join(gens)} }}"), deps)


def sum_():
    t = Ty(name(), None)
    t.header()
    if R.random() < .3:
        t.attrs.append("sum")
    vs, lays, deps, tos, gens = [], [], [], [], []
    names = R.sample(["Foo", "Bar", "Baz", "Qux"], R.choice([1, 2, 2, 3, 3, 4]))
    for n in names:
        a, c, comp = t.comp(variant=True)
        deps.append(c)
        vs.append(f"{attr(a)}\t{n}({c}),")
        lays.append((n, comp))
        tos.append(f"Self::{n}(v) => tagged({s(n)}, v.to_value()),")
    for i, n in enumerate(names):
        gens.append(f"{i if i + 1 < len(names) else '_'} => Self::{n}(Tv::gen(rng, depth + 1)),")
    src = ", ".join(f"({s(n)}.into(), {c})" for n, c in sorted(lays))
    emit(t, f"pub enum {t.name} {{\n" + "\n".join(vs) + "\n}", f"Lay::Sum({t.head()}, vec![{src}])",
         tv(t.name, "match self {\n\t\t\t" + "\n\t\t\t".join(tos) + "\n\t\t}",
            f"match rng.below({len(names)}) {{ {' '.join(gens)} }}"), deps)


LISTGEN = "(0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect()"


def set_():
    t = Ty(name(), None)
    t.header()
    t.attrs.append("set")
    a, c, comp = t.comp()
    emit(t, f"pub struct {t.name}({attr(a).strip()} pub Vec<{c}>);", f"Lay::Set({t.head()}, Box::new({comp}))",
         tv(t.name, "bag(self.0.iter().map(Tv::to_value).collect())", f"{t.name}({LISTGEN})"), [c])


def list_():
    t = Ty(name(), None)
    t.header()
    t.attrs.append("list")
    head = tail = None
    if "self" not in t.vars or R.random() < .3:
        head = "_:" + R.choice(t.vars)
        t.attrs.append(f"head({s(head)})")
    if R.random() < .25:
        cand = [v for v in t.vars if "_:" + v != (head or "_:self")]
        tail = "_:" + R.choice(cand) if cand and R.random() < .4 else "ex:end"
        t.attrs.append(f"tail({s(tail)})")
    hn = rn = None
    node_attrs = []
    if R.random() < .4:
        # default node description.
        c, n = pick()
        while n != 1:
            c, n = pick()
        g = R.choice([None, None, None, "None", 'Some("ex:g0")'])
        if g:
            node_attrs.append(f"graph({g})")
        gs = {None: "GraphA::Keep", "None": "GraphA::Default"}.get(g) or f"GraphA::Pat({pat('ex:g0')})"
        node = f"Node::Node {{ head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref({s(ref(c))}.into()), None, {gs}), dataset: None }}"
    else:
        if R.random() < .5:
            hn = R.choice(["head", "n", "first"])
            node_attrs.append(f"head({s(hn)})")
        if R.random() < .5:
            rn = R.choice(["rest", "m", "next"])
            node_attrs.append(f"rest({s(rn)})")
        h, r = hn or "head", rn or "rest"
        # the value is linked to the head, and the head to the rest.
        saved = t.vars
        t.vars = [h]
        a, c, (i, fmt, ds) = t.comp(node=(h, r))
        t.vars = saved
        link = ("_:" + h, R.choice(["ex:next", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"]), "_:" + r)
        # adds the link to the dataset.
        node_attrs += a
        for k, x in enumerate(node_attrs):
            if x.startswith("dataset("):
                node_attrs[k] = x[:-1] + ", (" + ", ".join(s(y) for y in link) + "))"
        assert any(x.startswith("dataset(") for x in node_attrs)
        ds = ds[:-2] + ", " + quad(link) + "])"
        node = f"Node::Node {{ head: {opt(s(hn) + '.into()' if hn else None)}, rest: {opt(s(rn) + '.into()' if rn else None)}, intro: {i}, fmt: {fmt}, dataset: {ds} }}"
    emit(t, f"pub struct {t.name}({attr(node_attrs).strip()} pub Vec<{c}>);",
         f"Lay::List({t.head()}, Box::new({node}), {opt(pat(head) if head else None)}, {opt(pat(tail) if tail else None)})",
         tv(t.name, "Value::List(self.0.iter().map(Tv::to_value).collect())", f"{t.name}({LISTGEN})"), [c])


def tuple_():
    t = Ty(name(), None)
    t.header()
    if R.random() < .4:
        t.attrs.append("tuple")
    items, lays, deps = [], [], []
    k = R.choice([1, 1, 2, 2, 3])
    for _ in range(k):
        a, c, comp = t.comp()
        deps.append(c)
        items.append(f"{attr(a)}\tpub {c},")
        lays.append(comp)
    body = "\n".join(items)
    tos = ", ".join(f"self.{i}.to_value()" for i in range(k))
    gens = ", ".join("Tv::gen(rng, depth + 1)" for _ in range(k))
    emit(t, f"pub struct {t.name}(\n{body}\n);", f"Lay::Tuple({t.head()}, vec![{', '.join(lays)}])",
         tv(t.name, f"Value::List(vec![{tos}])", f"{t.name}({gens})"), deps)


for _ in range(14):
    literal()
for _ in range(90):
    R.choice([literal, record, record, record, sum_, sum_, set_, list_, list_, tuple_])()

# a recursive type.
t = Ty("Tree", None)
t.inputs, t.vars = 1, ["self"]
t2 = Ty("Forest", None)
t2.inputs, t2.vars = 1, ["self"]
t2.attrs = ["set"]
emit(t, 'pub struct Tree {\n\t#[tldr("ex:label")]\n\tpub label: Option<String>,\n\t#[tldr(input("_:self"))]\n\tpub children: Forest,\n}',
     f"Lay::Record({t.head()}, vec![(\"label\".into(), Comp {{ intro: None, fmt: Fmt::Format(LRef::Ref({s(ref('String'))}.into()), None, GraphA::Keep), dataset: vec![], property: Some({pat('ex:label')}), required: false }}), (\"children\".into(), Comp {{ intro: None, fmt: Fmt::Format(LRef::Ref({s(ref('Forest'))}.into()), Some(vec![Pat::var(\"self\")]), GraphA::Keep), dataset: vec![], property: None, required: true }})])",
     tv("Tree", 'let mut m = BTreeMap::new();\n\t\tif let Some(v) = &self.label { m.insert(text("label"), v.to_value()); }\n\t\tm.insert(text("children"), self.children.to_value());\n\t\tValue::Map(m)',
        "Tree { label: if rng.pct(80) { Some(Tv::gen(rng, depth + 1)) } else { None }, children: Tv::gen(rng, depth + 1) }"), ["Forest", "String"])
emit(t2, 'pub struct Forest(#[tldr("ex:child")] pub Vec<Tree>);',
     f"Lay::Set({t2.head()}, Box::new(Comp {{ intro: None, fmt: Fmt::Format(LRef::Ref({s(ref('Tree'))}.into()), None, GraphA::Keep), dataset: vec![], property: Some({pat('ex:child')}), required: false }}))",
     tv("Forest", "bag(self.0.iter().map(Tv::to_value).collect())", f"Forest({LISTGEN})"), ["Tree"])

# raw identifiers.
t = Ty("Raw", None)
t.inputs, t.vars = 1, ["self"]
comps = [f"(\"{k}\".into(), Comp {{ intro: None, fmt: Fmt::Format(LRef::Ref({s(ref(ty))}.into()), None, GraphA::Keep), dataset: vec![], property: Some({pat(p)}), required: {q} }})"
         for k, ty, p, q in [("type", "String", "ex:p1", "true"), ("loop", "i32", "ex:p2", "false")]]
emit(t, 'pub struct Raw {\n\t#[tldr("ex:p1")]\n\tpub r#type: String,\n\t#[tldr("ex:p2")]\n\tpub r#loop: Option<i32>,\n}',
     f"Lay::Record({t.head()}, vec![{', '.join(comps)}])",
     tv("Raw", 'let mut m = BTreeMap::new();\n\t\tm.insert(text("type"), self.r#type.to_value());\n\t\tif let Some(v) = &self.r#loop { m.insert(text("loop"), v.to_value()); }\n\t\tValue::Map(m)',
        "Raw { r#type: Tv::gen(rng, depth + 1), r#loop: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None } }"), ["String", "i32"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
inputs = dict(types)


def write(path, head, items, entries):
    text = "//! Written by tools/gen_derive.py.\n#![allow(dead_code, unused_imports, clippy::all)]\n" + USES + head + "\n" + "\n".join(items)
    text += "\npub static ENTRIES: &[Entry] = &[\n"
    for n, lay, deps, decl in entries:
        text += f"\tEntry {{\n\t\tname: {s(n)},\n\t\tinputs: {inputs[n]},\n\t\tdeps: &[{', '.join(s(d) for d in deps)}],\n\t\tdecl: r#\"{decl}\"#,\n\t\tlay: || {lay},\n\t\tops: ops!({n}, {inputs[n]}),\n\t}},\n"
    text += "];\n"
    open(os.path.join(here, path), "w").write(text)


USES = """use crate::ast::*;
use crate::derive::*;
use crate::gen::*;
use crate::ops;
use crate::props::interp::*;
use crate::refde::tagged;
use crate::rng::Rng;
use std::collections::BTreeMap;
use treeldr::{DeserializeLd, SerializeLd};
use treeldr_layouts::{Literal, Value};

"""
APART = """
// Types of another module.
#[treeldr::tldr("../harness/src/generated/layouts/T102.json", "../harness/src/generated/layouts/T104.json")]
mod apart {
	#[tldr("https://ex.org/T9")]
	use crate::types;
}
"""
write("harness/src/derive/types.rs", "", out, entries)
# the layouts themselves are written by `vd emit`.
kept = [(n, l, d, "generated from its layout") for n, l, d, _ in entries if n not in NOT_GENERATED]
files = "".join(f'\t"../harness/src/generated/layouts/{n}.json",\n' for n, *_ in kept)
write("harness/src/generated/types.rs", "treeldr::tldr_include!(\n" + files + ");\n" + APART, generated, kept)
