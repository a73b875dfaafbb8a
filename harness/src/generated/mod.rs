//! Rust types generated from layouts, read back.
use crate::ast::*;
use crate::gen::*;
use crate::props::cli::{run_of, Scratch};
use crate::props::distill::{documents, scene_from, Scene};
use crate::refc::*;
use crate::rng::Rng;
use crate::runner::*;
use proc_macro2::{Delimiter, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use treeldr_gen_rust::Options;
use treeldr_layouts::distill::RdfContext;
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{Ref, Value};

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) }
}

// --- Model of the names.

pub const PRELUDE: &str = "https://treeldr.org/prelude#";

const PRESETS: &[(&str, &str)] = &[
	("id", "::treeldr::rdf_types::Id"),
	("unit", "()"),
	("boolean", "bool"),
	("u8", "u8"),
	("u16", "u16"),
	("u32", "u32"),
	("u64", "u64"),
	("i8", "i8"),
	("i16", "i16"),
	("i32", "i32"),
	("i64", "i64"),
	("string", "String"),
];

const NUMBERS: &[(&str, &str)] = &[
	("byte", "i8"),
	("short", "i16"),
	("int", "i32"),
	("long", "i64"),
	("unsignedByte", "u8"),
	("unsignedShort", "u16"),
	("unsignedInt", "u32"),
	("unsignedLong", "u64"),
];

/// Name of the type generated for the layout with the given IRI.
fn type_name(iri: &str) -> Option<String> {
	let (rest, local) = match iri.split_once('#') {
		Some((_, f)) => ("", f),
		None => {
			let rest = iri.split('?').next().unwrap();
			let rest = rest.split_once(':').unwrap().1;
			let path = match rest.strip_prefix("//") {
				Some(r) => &r[r.find('/').unwrap_or(r.len())..],
				None => rest,
			};
			(path, path.rsplit('/').next().unwrap())
		}
	};
	let _ = rest;
	let mut name = String::new();
	let mut up = true;
	for c in local.chars() {
		if c == '_' {
			up = true
		} else if up {
			name.extend(c.to_uppercase());
			up = false
		} else {
			name.push(c)
		}
	}
	syn::parse_str::<Ident>(&name).ok().map(|i| i.to_string())
}

/// Type standing for a layout, in the generated code.
fn type_of(iri: &str, modules: &[(String, String)]) -> Option<String> {
	if let Some(n) = iri.strip_prefix(PRELUDE) {
		if let Some((_, t)) = PRESETS.iter().find(|p| p.0 == n) {
			return Some(t.to_string());
		}
	}
	let name = type_name(iri)?;
	let module = modules.iter().filter(|m| iri.starts_with(&m.0)).max_by_key(|m| m.0.len());
	Some(match module {
		Some((_, path)) => format!("{path}::{name}"),
		None => name,
	})
}

fn canon_type(t: &str) -> String {
	syn::parse_str::<syn::Type>(t).unwrap().to_token_stream().to_string()
}

// --- Reader of the declarations, following the grammar of the derive macros.

type Read<T> = Result<T, String>;

#[derive(Default)]
struct Attrs {
	kind: Option<String>,
	base: Option<String>,
	prefixes: Vec<(String, String)>,
	id: Option<String>,
	input: Option<Vec<String>>,
	intro: Option<Vec<String>>,
	dataset: Option<Vec<QuadP>>,
	resource: Option<Pat>,
	datatype: Option<String>,
	head: Option<String>,
	tail: Option<String>,
	rest: Option<String>,
	graph: Option<GraphA>,
	property: Option<Pat>,
}

fn pat(s: &str) -> Pat {
	match s.strip_prefix("_:") {
		Some(v) => Pat::var(v),
		None => Pat::Iri(s.to_string()),
	}
}

fn string(t: TokenTree) -> Read<String> {
	match t {
		TokenTree::Literal(l) => match syn::Lit::new(l) {
			syn::Lit::Str(s) => Ok(s.value()),
			_ => Err("a string was expected".into()),
		},
		TokenTree::Group(g) if g.delimiter() == Delimiter::None => string(g.stream().into_iter().next().ok_or("empty group")?),
		t => Err(format!("a string was expected instead of `{t}`")),
	}
}

/// Splits at the commas.
fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
	let mut out = vec![vec![]];
	for t in ts {
		match t {
			TokenTree::Punct(p) if p.as_char() == ',' => out.push(vec![]),
			t => out.last_mut().unwrap().push(t),
		}
	}
	if out.last().unwrap().is_empty() {
		out.pop();
	}
	out
}

fn one(ts: Vec<TokenTree>) -> Read<TokenTree> {
	match <[TokenTree; 1]>::try_from(ts) {
		Ok([t]) => Ok(t),
		Err(ts) => Err(format!("one token was expected instead of {}", ts.len())),
	}
}

fn group(t: Option<TokenTree>) -> Read<TokenStream> {
	match t {
		Some(TokenTree::Group(g)) => Ok(g.stream()),
		_ => Err("an argument was expected".into()),
	}
}

fn strings(ts: TokenStream) -> Read<Vec<String>> {
	split(ts).into_iter().map(|t| string(one(t)?)).collect()
}

fn quad(ts: TokenStream) -> Read<QuadP> {
	let v = strings(ts)?;
	match v.as_slice() {
		[s, p, o] => Ok(QuadP(pat(s), pat(p), pat(o), None)),
		[s, p, o, g] => Ok(QuadP(pat(s), pat(p), pat(o), Some(pat(g)))),
		_ => Err("a quad was expected".into()),
	}
}

const KINDS: &[&str] = &[
	"id", "unit", "boolean", "number", "string", "bytes", "record", "sum", "set", "list", "tuple",
];

fn attrs(list: &[syn::Attribute]) -> Read<Attrs> {
	let mut r = Attrs::default();
	for a in list {
		if !a.path().is_ident("tldr") {
			continue;
		}
		let syn::Meta::List(m) = &a.meta else {
			return Err("invalid attribute".into());
		};
		for item in split(m.tokens.clone()) {
			let mut item = item.into_iter();
			let first = item.next().ok_or("empty attribute")?;
			let arg = item.next();
			if item.next().is_some() {
				return Err(format!("unexpected token after `{first}`"));
			}
			let name = match first {
				TokenTree::Ident(i) => i.to_string(),
				t => {
					r.property = Some(pat(&string(t)?));
					continue;
				}
			};
			if arg.is_none() && KINDS.contains(&name.as_str()) {
				r.kind = Some(name);
				continue;
			}
			let arg = group(arg)?;
			let single = |ts: TokenStream| string(one(ts.into_iter().collect())?);
			match name.as_str() {
				"base" => r.base = Some(single(arg)?),
				"id" => r.id = Some(single(arg)?),
				"head" => r.head = Some(single(arg)?),
				"tail" => r.tail = Some(single(arg)?),
				"rest" => r.rest = Some(single(arg)?),
				"resource" => r.resource = Some(pat(&single(arg)?)),
				"datatype" => r.datatype = Some(single(arg)?),
				"input" => r.input = Some(strings(arg)?),
				"intro" => r.intro = Some(strings(arg)?),
				"dataset" => {
					r.dataset = Some(split(arg).into_iter().map(|t| quad(group(Some(one(t)?))?)).collect::<Read<_>>()?)
				}
				"prefix" => {
					for b in split(arg) {
						match <[TokenTree; 3]>::try_from(b) {
							Ok([p, _, i]) => r.prefixes.push((string(p)?, string(i)?)),
							Err(_) => return Err("invalid prefix".into()),
						}
					}
				}
				"graph" => {
					let mut ts = arg.into_iter();
					r.graph = Some(match (ts.next(), ts.next(), ts.next()) {
						(Some(TokenTree::Ident(i)), None, None) if i == "_" => GraphA::Keep,
						(Some(TokenTree::Ident(i)), None, None) if i == "None" => GraphA::Default,
						(Some(TokenTree::Ident(i)), Some(TokenTree::Group(g)), None) if i == "Some" => {
							GraphA::Pat(pat(&single(g.stream())?))
						}
						_ => return Err("invalid graph".into()),
					})
				}
				n => return Err(format!("unknown attribute `{n}`")),
			}
		}
	}
	Ok(r)
}

/// `Name<T>`
fn argument(t: &syn::Type, name: &str) -> Option<syn::Type> {
	let syn::Type::Path(p) = t else { return None };
	if p.qself.is_some() || p.path.segments.len() != 1 || p.path.leading_colon.is_some() {
		return None;
	}
	let s = &p.path.segments[0];
	match &s.arguments {
		syn::PathArguments::AngleBracketed(a) if s.ident == name && a.args.len() == 1 => match &a.args[0] {
			syn::GenericArgument::Type(t) => Some(t.clone()),
			_ => None,
		},
		_ => None,
	}
}

const RUST: &str = "rust:";

struct Reader {
	types: Vec<String>,
}

impl Reader {
	fn layout(&mut self, t: &syn::Type) -> LRef {
		self.types.push(t.to_token_stream().to_string());
		LRef::Ref(format!("{RUST}/t{}", self.types.len() - 1))
	}

	fn comp(&mut self, a: Attrs, t: &syn::Type, required: bool) -> Comp {
		Comp {
			intro: a.intro,
			fmt: Fmt::Format(
				self.layout(t),
				a.input.map(|i| i.iter().map(|s| pat(s)).collect()),
				a.graph.unwrap_or(GraphA::Keep),
			),
			dataset: a.dataset.unwrap_or_default(),
			property: a.property,
			required,
		}
	}

	/// Reads a type declaration: its layout, and the type of the value for
	/// literal layouts.
	fn read(&mut self, item: &syn::Item) -> Read<(Lay, Option<String>)> {
		let (list, kind) = match item {
			syn::Item::Struct(s) => (
				&s.attrs,
				match &s.fields {
					syn::Fields::Named(_) => "record",
					syn::Fields::Unnamed(_) => "tuple",
					syn::Fields::Unit => "unit",
				},
			),
			syn::Item::Enum(e) => (&e.attrs, "sum"),
			_ => return Err("a struct or an enum was expected".into()),
		};
		let a = attrs(list)?;
		let kind = a.kind.clone().unwrap_or(kind.to_string());
		let h = Header {
			base: a.base.clone(),
			prefixes: a.prefixes.clone(),
			id: a.id.clone(),
			input: a.input.clone(),
			intro: a.intro.clone().unwrap_or_default(),
			dataset: a.dataset.clone().unwrap_or_default(),
			extra: vec![],
		};
		let fields = match item {
			syn::Item::Struct(s) => s.fields.iter().cloned().collect(),
			_ => vec![],
		};
		let unnamed = matches!(item, syn::Item::Struct(s) if matches!(s.fields, syn::Fields::Unnamed(_)));
		let single = || match fields.as_slice() {
			[f] if unnamed => Ok(f.clone()),
			_ => Err(format!("a {kind} type must have one unnamed field")),
		};
		let inner = || Ok::<_, String>(Some(single()?.ty.to_token_stream().to_string()));
		let datatype = || a.datatype.clone().ok_or("missing datatype".to_string());
		Ok(match kind.as_str() {
			"unit" => {
				if !matches!(item, syn::Item::Struct(s) if matches!(s.fields, syn::Fields::Unit)) {
					return Err("a unit type must have no fields".into());
				}
				(Lay::Unit(h, None), None)
			}
			"boolean" => (Lay::Boolean(h, a.resource, a.datatype), inner()?),
			"number" => (Lay::Number(h, a.resource.clone(), datatype()?), inner()?),
			"bytes" => (Lay::Bytes(h, a.resource.clone(), datatype()?), inner()?),
			"string" => (Lay::Str(h, a.resource, a.datatype, None), inner()?),
			"id" => (Lay::Id(h, a.resource, None), inner()?),
			"record" => {
				let mut v = Vec::new();
				for f in &fields {
					let n = f.ident.as_ref().ok_or("a record type must have named fields")?.to_string();
					let c = attrs(&f.attrs)?;
					v.push((
						n.strip_prefix("r#").unwrap_or(&n).to_string(),
						match argument(&f.ty, "Option") {
							Some(t) => self.comp(c, &t, false),
							None => self.comp(c, &f.ty, true),
						},
					))
				}
				(Lay::Record(h, v), None)
			}
			"sum" => {
				let syn::Item::Enum(e) = item else {
					return Err("a sum type must be an enum".into());
				};
				let mut v = Vec::new();
				for x in &e.variants {
					let c = attrs(&x.attrs)?;
					let n = x.ident.to_string();
					let f = match &x.fields {
						syn::Fields::Unnamed(f) if f.unnamed.len() == 1 => &f.unnamed[0],
						_ => return Err("a variant must have one unnamed field".into()),
					};
					v.push((n.strip_prefix("r#").unwrap_or(&n).to_string(), self.comp(c, &f.ty, false)))
				}
				(Lay::Sum(h, v), None)
			}
			"tuple" => {
				if !unnamed {
					return Err("a tuple type must have unnamed fields".into());
				}
				let mut v = Vec::new();
				for f in &fields {
					let c = attrs(&f.attrs)?;
					v.push(self.comp(c, &f.ty, false))
				}
				(Lay::Tuple(h, v), None)
			}
			"set" | "list" => {
				let f = single()?;
				let mut c = attrs(&f.attrs)?;
				let t = argument(&f.ty, "Vec").ok_or(format!("`Vec<_>` was expected instead of `{}`", f.ty.to_token_stream()))?;
				if kind == "set" {
					(Lay::Set(h, Box::new(self.comp(c, &t, false))), None)
				} else {
					let (head, rest) = (c.head.take(), c.rest.take());
					let dataset = c.dataset.take();
					let c = self.comp(c, &t, false);
					let node = Node::Node { head, rest, intro: c.intro, fmt: c.fmt, dataset };
					(Lay::List(h, Box::new(node), a.head.as_deref().map(pat), a.tail.as_deref().map(pat)), None)
				}
			}
			_ => unreachable!(),
		})
	}
}

// --- Comparison.

/// Description of a layout, where the layouts it refers to are named by their
/// types, without what types cannot express.
fn describe(l: &RLay, ty: &dyn Fn(&Key) -> Option<String>) -> Option<String> {
	let comp = |c: &RComp| {
		Some(format!(
			"intro {} dataset {:?} layout {} input {:?} graph {:?}",
			c.intro,
			c.dataset,
			ty(&c.fmt.layout)?,
			c.fmt.input,
			c.fmt.graph
		))
	};
	let mut out = match l.head() {
		Some(h) => format!("{}: input {} intro {} dataset {:?}", l.name(), h.input, h.intro, h.dataset),
		None => return None,
	};
	let mut line = |s: String| {
		out.push_str("\n  ");
		out.push_str(&s)
	};
	match l {
		RLay::Lit { resource, datatype, .. } => line(format!("resource {resource:?} datatype {datatype}")),
		RLay::Record(_, f) => {
			for (k, c) in f {
				line(format!("{k:?} required {} {}", c.required, comp(c)?))
			}
		}
		RLay::Sum(_, v) => {
			let mut v: Vec<_> = v.iter().collect();
			v.sort_by_key(|x| &x.0);
			for (n, c) in v {
				line(format!("{n} {}", comp(c)?))
			}
		}
		RLay::Set(_, c) => line(comp(c)?),
		RLay::Tuple(_, v) => {
			for c in v {
				line(comp(c)?)
			}
		}
		RLay::List { node, first, tail, .. } => {
			line(format!("head {first:?} tail {tail:?}"));
			line(comp(node)?)
		}
		_ => (),
	}
	Some(out)
}

/// Are all the constants IRIs?
fn expressible(l: &RLay) -> bool {
	let p = |p: &RPat| match p {
		RPat::Var(_) => true,
		RPat::Term(t) => t.is_iri(),
	};
	let q = |q: &RQuad| p(&q.0) && p(&q.1) && p(&q.2) && q.3.as_ref().is_none_or(p);
	l.head().is_some_and(|h| h.dataset.iter().all(q))
		&& l.comps().iter().all(|c| {
			c.dataset.iter().all(q)
				&& c.fmt.input.iter().all(p)
				&& match &c.fmt.graph {
					RGraph::Pat(g) => p(g),
					_ => true,
				}
		}) && match l {
		RLay::Lit { resource, .. } => p(resource),
		RLay::List { first, tail, .. } => p(first) && p(tail),
		_ => true,
	}
}

fn is_ident(s: &str) -> bool {
	syn::parse_str::<Ident>(s).is_ok()
}

// --- Generation of the layouts.

const LOCAL: &[&str] = &[
	"Foo", "foo", "foo_bar", "fooBar", "__x", "x1", "1x", "a-b", "été", "ßa", "self", "Self", "type", "_", "", "X_", "a__b", "FOO_BAR", "r#a", "_1",
];

fn type_iri(rng: &mut Rng, unique: &mut usize) -> String {
	*unique += 1;
	let base = *rng.pick(&[EX, "https://ex.org/types#", "https://ex.org/a/b/", "https://other.org/?q=1#", "https://ex.org/a_b#", "urn:x#", "urn:x/"]);
	match rng.below(10) {
		0..=5 => format!("{base}T{unique}"),
		6 | 7 => format!("{base}{}{unique}", rng.pick(LOCAL).replace('#', "")),
		_ => format!("{base}{}", rng.pick(LOCAL).replace('#', "")),
	}
}

/// Names the layouts, and refers to some layouts of the prelude.
fn rename(rng: &mut Rng, l: &mut Lay, unique: &mut usize) {
	let mut child = |rng: &mut Rng, r: &mut LRef| match r {
		LRef::Inline(i) => {
			if rng.pct(55) {
				*r = LRef::Ref(if rng.pct(50) {
					format!("{PRELUDE}{}", rng.pick(PRESETS).0)
				} else if rng.pct(15) {
					format!("{PRELUDE}other")
				} else {
					type_iri(rng, unique)
				})
			} else {
				if let Some(h) = i.header_mut() {
					if h.id.is_none() && rng.pct(90) {
						h.id = Some(type_iri(rng, unique))
					}
				}
				rename(rng, i, unique)
			}
		}
		LRef::Ref(_) => (),
	};
	let mut fmt = |rng: &mut Rng, f: &mut Fmt| match f {
		Fmt::Layout(l) => child(rng, l),
		Fmt::Format(l, ..) => child(rng, l),
	};
	match l {
		Lay::Record(_, c) | Lay::Sum(_, c) => c.iter_mut().for_each(|c| fmt(rng, &mut c.1.fmt)),
		Lay::Set(_, c) => fmt(rng, &mut c.fmt),
		Lay::Tuple(_, c) => c.iter_mut().for_each(|c| fmt(rng, &mut c.fmt)),
		Lay::List(_, n, ..) => match &mut **n {
			Node::Layout(l) => child(rng, l),
			Node::Node { fmt: f, .. } => fmt(rng, f),
		},
		Lay::Number(_, _, d) => {
			if rng.pct(70) {
				*d = format!("{XSD}{}", rng.pick(NUMBERS).0)
			}
		}
		_ => (),
	}
	if let Lay::Record(_, c) | Lay::Sum(_, c) = l {
		// names that are identifiers, most of the time.
		let n = c.len();
		for (i, (k, _)) in c.iter_mut().enumerate() {
			if rng.pct(if n > 2 { 95 } else { 85 }) && !is_ident(k) {
				*k = format!("{}{i}", rng.pick(&["f", "Field", "r_x", "été", "_f"]))
			}
		}
	}
}

/// The `tldr-rs` program prints what the library generates.
fn program(rng: &mut Rng, cov: &mut Cov, s: &Scene) -> Case {
	let dir = Scratch::new();
	let mut args: Vec<String> = s.docs.iter().enumerate().map(|(i, d)| dir.file(&format!("{i}.json"), d)).collect();
	let keys: Vec<&Key> = s.reg.lays.keys().filter(|k| s.map.contains_key(k)).collect();
	let mut target = None;
	let named = rng.pct(85);
	if s.docs.len() == 1 && rng.pct(30) {
		target = Some(s.root_ref.clone())
	} else if named {
		match rng.pick(&keys) {
			Key::Iri(i) => {
				target = Some(Ref::new(s.map[&Key::Iri(i.clone())].clone()));
				let at = if rng.pct(50) { 0 } else { args.len() };
				args.insert(at, i.clone());
				args.insert(at, rng.pick(&["--layout", "-l"]).to_string());
			}
			Key::Anon(_) => return Ok(()),
		}
	} else {
		if s.docs.len() == 1 {
			return Ok(());
		}
		if rng.pct(50) {
			args.extend(["--layout".to_string(), format!("{EX}Nothing")])
		}
	}
	if rng.pct(10) {
		// a file that is not a layout.
		let text = *rng.pick(&["", "{", "{\"type\": \"nothing\"}", "[]", "{\"type\": \"record\"} x", "\"id\""]);
		let file = dir.file("bad.json", text);
		let i = rng.below(s.docs.len() + 1);
		let at = args.iter().enumerate().filter(|(_, a)| a.ends_with(".json")).map(|(i, _)| i).nth(i).unwrap_or(args.len());
		args.insert(at, file);
		target = None;
		cov.hit("tldr-rs: invalid file");
	}
	let expected = match &target {
		Some(r) => treeldr_gen_rust::generate(RdfContext::default(), &s.layouts, r, &Options::new()).ok().map(|t| t.to_string()),
		None => None,
	};
	let o = run_of("tldr-rs", cov, &dir.0, &args, b"")?;
	match expected {
		Some(e) => {
			if o.code != Some(0) || String::from_utf8_lossy(&o.out).trim_end() != e {
				bad!("tldr-rs ended with {:?} ({}) and printed\n{}\nexpected\n{e}", o.code, o.err, String::from_utf8_lossy(&o.out))
			}
			cov.hit("tldr-rs: printed");
		}
		None => {
			if o.code == Some(0) || !o.out.is_empty() {
				bad!("tldr-rs ended with {:?} and printed\n{}\nwhere nothing can be generated", o.code, String::from_utf8_lossy(&o.out))
			}
			cov.hit("tldr-rs: failed");
		}
	}
	Ok(())
}

pub fn tokens(rng: &mut Rng, cov: &mut Cov) -> Case {
	let (mut lays, _) = Gen::library(rng, false);
	let mut unique = 0;
	let last = lays.len() - 1;
	for (i, l) in lays.iter_mut().enumerate() {
		rename(rng, l, &mut unique);
		if i == last {
			if let Some(h) = l.header_mut() {
				h.id = Some(type_iri(rng, &mut unique))
			}
		}
	}
	let docs = documents(rng, &lays);
	let s = scene_from(cov, &lays, docs)?;
	if rng.pct(3) {
		let case = cov.case.clone();
		program(rng, cov, &s)?;
		cov.case = case;
	}
	let mut options = Options::new();
	let mut modules: Vec<(String, String)> = Vec::new();
	for _ in 0..*rng.pick(&[0, 0, 1, 2, 3]) {
		let prefix = rng.pick(&[EX, "https://ex.org/types#", "https://ex.org/a", "https://ex.org/a/b/", "https://", "urn:", PRELUDE, "https://nothing.org/"]).to_string();
		let path = rng.pick(&["foo", "foo::bar", "crate::m", "::ext::m", "self::x"]).to_string();
		if rng.pct(5) {
			let p = syn::parse_str(&format!("{path}::g<u8>")).unwrap();
			let r = guard("use_module", || options.use_module(prefix, p))?;
			if r.is_ok() {
				bad!("a module path with arguments is accepted")
			}
			cov.hit("invalid module path");
			continue;
		}
		cov.case.push_str(&format!("module: {prefix} {path}\n"));
		if guard("use_module", || options.use_module(prefix.clone(), syn::parse_str(&path).unwrap()))?.is_err() {
			bad!("the module path `{path}` is rejected")
		}
		modules.retain(|m| m.0 != prefix);
		modules.push((prefix, path));
	}
	let case = cov.case.clone();
	for (key, l) in &s.reg.lays {
		let Some(id) = s.map.get(key) else { continue };
		let Some(iri) = id.as_iri() else { continue };
		cov.case = format!("{case}layout: {iri}\n");
		let r: Ref<LayoutType> = Ref::new(id.clone());
		let real = guard("generate", || treeldr_gen_rust::generate(RdfContext::default(), &s.layouts, &r, &options).map(|t| t.to_string()).map_err(|e| e.to_string()))?;
		cov.eval();
		let again = guard("generate", || treeldr_gen_rust::generate(RdfContext::default(), &s.layouts, &r, &options).map(|t| t.to_string()).map_err(|e| e.to_string()))?;
		if real != again {
			bad!("generated\n{real:?}\nthen\n{again:?}")
		}
		let ty = |k: &Key| match k {
			Key::Iri(i) => type_of(i, &modules).map(|t| canon_type(&t)),
			Key::Anon(_) => None,
		};
		let mut expected = match l {
			RLay::Always | RLay::Never => continue,
			l => describe(l, &ty),
		};
		let name = type_name(iri.as_str());
		let reason = if name.is_none() {
			"a layout without type name"
		} else if expected.is_none() {
			"a reference to a layout without type name"
		} else if !expressible(l) {
			"a constant that is not an IRI"
		} else {
			match l {
				RLay::Record(_, f) if !f.keys().all(|k| matches!(k, Value::Literal(treeldr_layouts::Literal::TextString(s)) if is_ident(s))) => {
					"a field key that is not an identifier"
				}
				RLay::Sum(_, v) if !v.iter().all(|v| is_ident(&v.0)) => "a variant name that is not an identifier",
				RLay::Lit { kind: Kind::Number, datatype, .. }
					if !datatype.strip_prefix(XSD).is_some_and(|d| NUMBERS.iter().any(|n| n.0 == d)) =>
				{
					"a number datatype without Rust type"
				}
				_ => "",
			}
		};
		if !reason.is_empty() {
			expected = None
		}
		let text = match (real, &expected) {
			(Ok(t), Some(_)) => t,
			(Err(_), None) => {
				cov.hit(format!("rejected: {reason}"));
				continue;
			}
			(Ok(t), None) => bad!("{reason} is accepted:\n{t}"),
			(Err(e), Some(_)) => bad!("no type is generated: {e}"),
		};
		cov.case.push_str(&format!("generated: {text}\n"));
		let item: syn::Item = match syn::parse_str(&text) {
			Ok(i) => i,
			Err(e) => bad!("the generated code is not an item: {e}"),
		};
		let (list, vis, ident) = match &item {
			syn::Item::Struct(s) => (&s.attrs, &s.vis, &s.ident),
			syn::Item::Enum(s) => (&s.attrs, &s.vis, &s.ident),
			_ => bad!("the generated code is not a struct or an enum"),
		};
		if !matches!(vis, syn::Visibility::Public(_)) {
			bad!("the type is not public")
		}
		if *ident != name.unwrap() {
			bad!("the type is named {ident}")
		}
		let derived: String = list
			.iter()
			.filter(|a| a.path().is_ident("derive"))
			.map(|a| a.meta.to_token_stream().to_string())
			.collect();
		if !derived.contains("SerializeLd") || !derived.contains(" DeserializeLd") && !derived.contains("::DeserializeLd") {
			bad!("the conversions are not derived: {derived}")
		}
		let mut reader = Reader { types: vec![] };
		let (lay, inner) = match reader.read(&item) {
			Ok(r) => r,
			Err(e) => bad!("the derive macros do not accept the type: {e}"),
		};
		let (reg, roots) = match compile(&[&lay]) {
			Ok(r) => r,
			Err(e) => bad!("the type describes an invalid layout: {e:?}"),
		};
		let read = describe(&reg.lays[&roots[0]], &|k| match k {
			Key::Iri(i) => i.strip_prefix("rust:/t").map(|i| reader.types[i.parse::<usize>().unwrap()].clone()),
			Key::Anon(_) => None,
		});
		if read != expected {
			bad!("the type describes\n{}\nexpected\n{}", read.unwrap_or_default(), expected.unwrap())
		}
		if let RLay::Lit { kind, datatype, .. } = l {
			let x = match kind {
				Kind::Boolean => "bool",
				Kind::Str => "String",
				Kind::Bytes => "Vec<u8>",
				Kind::Id => "::treeldr::rdf_types::Id",
				Kind::Number => NUMBERS.iter().find(|n| datatype.strip_prefix(XSD) == Some(n.0)).unwrap().1,
			};
			if inner.as_deref() != Some(&canon_type(x)) {
				bad!("the type holds {inner:?} instead of {x}")
			}
		}
		cov.hit(format!("generated: {}", l.name()));
		if reader.types.iter().any(|t| t.contains("::")) {
			cov.hit("a type of another module, or of the prelude")
		}
		cov.observe(&text);
		if l.comps().len() >= 2 {
			cov.sample(|| text.clone());
		}
	}
	Ok(())
}

/// Conversions of the compiled types, or generation of random ones.
fn p18(rng: &mut Rng, cov: &mut Cov, i: u64) -> Case {
	if i % 4 == 0 {
		crate::derive::p17(rng, cov, i)
	} else {
		tokens(rng, cov)
	}
}

pub static PROPS: &[Prop] = &[Prop {
	id: "P18",
	rule: "(a) types generated from random layouts of every kind (named, nested, foreign, of the prelude, in other modules), read back; (b) types compiled from layouts by the `tldr_include` macro, on random datasets and values; non trivial: the layout is described entirely by the generated type, or, for (b), the value has at least 2 nodes, or at least 2 quads are emitted, or the data is rejected; distinct by generated code, or (type, interpretation, data or value)",
	quick: 150_000,
	thorough: 3_000_000,
	hang: 60,
	threads: 8,
	run: p18,
}];
