//! The front-ends of the abstract syntax, and its compilation.
use crate::ast::*;
use crate::gen::*;
use crate::json::J;
use crate::real::*;
use crate::refc::*;
use crate::rng::Rng;
use crate::runner::*;
use json_syntax::{Parse, TryFromJson};
use treeldr_layouts as tl;
use treeldr_layouts::abs::syntax::{Error, Layout};

pub static PROPS: &[Prop] = &[
	Prop {
		id: "P09",
		rule: "random layout documents (all constructs, shuffled keys), read by both front-ends, printed and read again; the same documents with one fault at a random place (wrong kind of value, unknown, duplicate or missing entry, bad type, regular expression, language tag, reference or quad); non trivial: the document has at least 20 JSON nodes; distinct by document",
		quick: 120_000,
		thorough: 5_000_000,
		hang: 60,
		threads: 8,
		run: p09,
	},
	Prop {
		id: "P10",
		rule: "random layout documents, valid or with faulty names (undeclared variables, missing base, invalid IRI, redefinition, no subject nor object for a property, no resource for a literal); every compiled layout is compared component by component with the reference compiler; non trivial: at least 3 layouts or an error; distinct by documents",
		quick: 120_000,
		thorough: 5_000_000,
		hang: 60,
		threads: 8,
		run: p10,
	},
];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Role {
	Layout,
	/// Layout or reference to a layout.
	LayoutRef,
	Format,
	FormatOrLayout,
	Node,
	Field,
	Variant,
	Item,
	Pattern,
	Patterns,
	Graph,
	Dataset,
	Quad,
	Literal,
	Iri,
	Name,
	Names,
	Bool,
	Prefixes,
	Map(bool),
	Items,
	Extra,
	Const,
	Type,
	Regex,
	Lang,
	Text,
}

#[derive(Debug, Clone)]
struct Spot {
	path: Vec<usize>,
	role: Role,
}

fn child_role(parent: Role, ty: &str, key: &str) -> Role {
	match (parent, key) {
		(Role::Layout, "type") => Role::Type,
		(Role::Layout, "base") => Role::Iri,
		(Role::Layout, "id") => Role::Iri,
		(Role::Layout, "prefixes") => Role::Prefixes,
		(Role::Layout, "input") => Role::Names,
		(Role::Layout, "intro") => Role::Names,
		(_, "dataset") => Role::Dataset,
		(Role::Layout, "extra") => Role::Extra,
		(Role::Layout, "const") => Role::Const,
		(Role::Layout, "resource" | "head" | "tail") => Role::Pattern,
		(Role::Layout, "datatype") => Role::Iri,
		(Role::Layout, "pattern") => Role::Regex,
		(Role::Layout, "fields") => Role::Map(true),
		(Role::Layout, "variants") => Role::Map(false),
		(Role::Layout, "item") => Role::Item,
		(Role::Layout, "items") => Role::Items,
		(Role::Layout, "node") => Role::Node,
		(Role::Node, "head" | "rest") => Role::Name,
		(Role::Node | Role::Field | Role::Variant | Role::Item, "intro") => Role::Names,
		(Role::Node | Role::Field | Role::Variant | Role::Item, "value") => Role::FormatOrLayout,
		(Role::Field | Role::Item, "property") => Role::Pattern,
		(Role::Field, "required") => Role::Bool,
		(Role::Format, "layout") => Role::LayoutRef,
		(Role::Format, "input") => Role::Patterns,
		(Role::Format, "graph") => Role::Graph,
		(Role::Literal, "value") => Role::Text,
		(Role::Literal, "type") => Role::Iri,
		(Role::Literal, "language") => Role::Lang,
		_ => panic!("unknown entry {key} of {parent:?} ({ty})"),
	}
}

/// Lists the nodes of the document, with their roles.
fn spots(j: &J, role: Role, path: &mut Vec<usize>, out: &mut Vec<Spot>) {
	// normalise the role.
	let role = match (role, j) {
		(Role::LayoutRef, J::Obj(_)) => Role::Layout,
		(Role::FormatOrLayout, J::Obj(_)) => {
			if j.get("type").is_some() {
				Role::Layout
			} else {
				Role::Format
			}
		}
		(Role::Node, J::Obj(_)) if j.get("type").is_some() => Role::Layout,
		(Role::Pattern | Role::Patterns, J::Obj(_)) => Role::Literal,
		(Role::Graph, J::Obj(_)) => Role::Literal,
		(r, _) => r,
	};
	out.push(Spot { path: path.clone(), role });
	if matches!(role, Role::Const | Role::Extra) {
		return;
	}
	match j {
		J::Obj(o) => {
			let ty = match j.get("type") {
				Some(J::Str(s)) => s.clone(),
				_ => String::new(),
			};
			for (i, (k, v)) in o.iter().enumerate() {
				let r = match role {
					Role::Prefixes => Role::Iri,
					Role::Map(true) => Role::Field,
					Role::Map(false) => Role::Variant,
					r => child_role(r, &ty, k),
				};
				path.push(i);
				spots(v, r, path, out);
				path.pop();
			}
		}
		J::Arr(a) => {
			let r = match role {
				Role::Names => Role::Name,
				Role::Patterns => Role::Pattern,
				Role::Dataset => Role::Quad,
				Role::Quad => Role::Pattern,
				Role::Items => Role::Item,
				r => panic!("unexpected array as {r:?}"),
			};
			for (i, v) in a.iter().enumerate() {
				path.push(i);
				spots(v, r, path, out);
				path.pop();
			}
		}
		_ => (),
	}
}

fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
	match path.split_first() {
		None => j,
		Some((i, rest)) => match j {
			J::Obj(o) => at(&mut o[*i].1, rest),
			J::Arr(a) => at(&mut a[*i], rest),
			_ => unreachable!(),
		},
	}
}

/// Number of fragments of the value.
fn size(j: &J) -> usize {
	match j {
		J::Obj(o) => 1 + o.iter().map(|(_, v)| 2 + size(v)).sum::<usize>(),
		J::Arr(a) => 1 + a.iter().map(size).sum::<usize>(),
		_ => 1,
	}
}

/// Index of the fragment at the given path.
fn offset(j: &J, path: &[usize]) -> usize {
	match path.split_first() {
		None => 0,
		Some((i, rest)) => match j {
			J::Obj(o) => {
				let before: usize = o[..*i].iter().map(|(_, v)| 2 + size(v)).sum();
				1 + before + 2 + offset(&o[*i].1, rest)
			}
			J::Arr(a) => {
				let before: usize = a[..*i].iter().map(size).sum();
				1 + before + offset(&a[*i], rest)
			}
			_ => unreachable!(),
		},
	}
}

/// Does the document contain an empty object? (json-syntax 0.12.5 forgets to
/// count it in its code map, which shifts the positions that follow.)
pub fn has_empty_object(j: &J) -> bool {
	match j {
		J::Obj(o) => o.is_empty() || o.iter().any(|(_, v)| has_empty_object(v)),
		J::Arr(a) => a.iter().any(has_empty_object),
		_ => false,
	}
}

/// The regular expressions of a layout.
fn expressions(v: &serde_json::Value, out: &mut Vec<String>) {
	match v {
		serde_json::Value::Object(o) => {
			if let Some(serde_json::Value::String(p)) = o.get("pattern") {
				out.push(p.clone())
			}
			o.values().for_each(|v| expressions(v, out))
		}
		serde_json::Value::Array(a) => a.iter().for_each(|v| expressions(v, out)),
		_ => (),
	}
}

/// The structure of a layout, where `"a"` and `["a"]` are the same.
fn structure(l: &Layout) -> String {
	let mut text = format!("{l:?}");
	// expressions are printed bare, and may contain quotes and parentheses.
	let mut exprs = Vec::new();
	expressions(&serde_json::to_value(l).unwrap_or_default(), &mut exprs);
	for e in exprs {
		text = text.replace(&format!("pattern: Some({e})"), &format!("pattern: Some({e:?})"));
	}
	let c: Vec<char> = text.chars().collect();
	let mut out = String::with_capacity(text.len());
	// closing text of each open parenthesis.
	let mut open: Vec<bool> = Vec::new();
	let (mut i, mut quoted) = (0, false);
	while i < c.len() {
		if quoted {
			out.push(c[i]);
			if c[i] == '\\' {
				i += 1;
				out.push(c[i]);
			} else if c[i] == '"' {
				quoted = false;
			}
		} else if c[i..].starts_with(&['O', 'n', 'e', '(']) && !out.ends_with(char::is_alphanumeric) {
			out.push_str("Many([");
			open.push(true);
			i += 3;
		} else {
			match c[i] {
				'(' => open.push(false),
				')' => {
					if open.pop() == Some(true) {
						out.push(']')
					}
				}
				'"' => quoted = true,
				_ => (),
			}
			out.push(c[i]);
		}
		i += 1
	}
	out
}

/// Where two layouts start to differ.
fn difference(a: &Layout, b: &Layout) -> String {
	let (a, b) = (structure(a), structure(b));
	let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
	let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(60)..s.len().min(n + 90)]).into_owned();
	format!("…{}…\ninstead of …{}…", cut(&a), cut(&b))
}

fn nodes(j: &J) -> usize {
	match j {
		J::Obj(o) => 1 + o.iter().map(|(_, v)| nodes(v)).sum::<usize>(),
		J::Arr(a) => 1 + a.iter().map(nodes).sum::<usize>(),
		_ => 1,
	}
}

fn located(text: &str) -> Result<Result<(Layout, json_syntax::CodeMap), (Error, json_syntax::CodeMap)>, String> {
	let (json, map) = json_syntax::Value::parse_str(text).map_err(|e| e.to_string())?;
	Ok(match Layout::try_from_json_at(&json, &map, 0) {
		Ok(l) => Ok((l, map)),
		Err(e) => Err((e, map)),
	})
}

fn kind(e: &Error) -> &'static str {
	match e {
		Error::Unexpected { .. } => "Unexpected",
		Error::MissingRequiredEntry { .. } => "MissingRequiredEntry",
		Error::DuplicateEntry { .. } => "DuplicateEntry",
		Error::UnexpectedEntry { .. } => "UnexpectedEntry",
		Error::MissingType(_) => "MissingType",
		Error::InvalidType { .. } => "InvalidType",
		Error::InvalidRegex(..) => "InvalidRegex",
		Error::InvalidPattern(..) => "InvalidPattern",
		Error::InvalidLangTag(..) => "InvalidLangTag",
		Error::InvalidCompactIri(..) => "InvalidCompactIri",
		Error::MissingQuadPattern(_) => "MissingQuadPattern",
		Error::TooManyQuadPatterns(_) => "TooManyQuadPatterns",
		Error::ExpectedInteger(..) => "ExpectedInteger",
		Error::IntegerOverflow(..) => "IntegerOverflow",
	}
}

/// A fault: the expected error, the allowed positions, and whether serde has
/// to reject it too.
pub struct Fault {
	pub what: &'static str,
	pub kinds: &'static [&'static str],
	pub offsets: Vec<usize>,
	serde: bool,
}

pub fn fault(rng: &mut Rng, doc: &mut J) -> Option<Fault> {
	let mut all = Vec::new();
	spots(doc, Role::Layout, &mut Vec::new(), &mut all);
	let pick = |rng: &mut Rng, f: &dyn Fn(Role) -> bool| -> Option<Spot> {
		let v: Vec<&Spot> = all.iter().filter(|s| f(s.role)).collect();
		if v.is_empty() {
			None
		} else {
			Some((*rng.pick(&v)).clone())
		}
	};
	let objects = |r: Role| {
		matches!(
			r,
			Role::Layout
				| Role::Format
				| Role::Node
				| Role::Field
				| Role::Variant
				| Role::Item
				| Role::Literal
		)
	};
	match rng.below(10) {
		0 | 1 => {
			// wrong kind of value.
			let s = pick(rng, &|r| !matches!(r, Role::Const | Role::Extra))?;
			let bad = match rng.below(3) {
				0 if s.role != Role::Graph => J::Null,
				1 => J::Num("7".into()),
				_ => J::Num("-1.5".into()),
			};
			// `null` is the absence of entry for serde's options.
			let serde = bad != J::Null;
			*at(doc, &s.path) = bad;
			let o = offset(doc, &s.path);
			Some(Fault {
				what: "wrong kind",
				kinds: &["Unexpected"],
				offsets: vec![o],
				serde,
			})
		}
		2 | 3 => {
			let s = pick(rng, &objects)?;
			let o = at(doc, &s.path);
			let J::Obj(o) = o else {
				return None;
			};
			// a reference or a layout is a string or a boolean.
			let i = rng.range(0, o.len());
			let key = *rng.pick(&["zzz", "Type", "values", "inputs", "data", "", "@id"]);
			o.insert(i, (key.into(), J::str("x")));
			let mut p = s.path.clone();
			p.push(i);
			let off = offset(doc, &p) - 1;
			Some(Fault {
				what: "unknown entry",
				kinds: &["UnexpectedEntry"],
				offsets: vec![off],
				serde: true,
			})
		}
		4 => {
			let s = pick(rng, &objects)?;
			let J::Obj(o) = at(doc, &s.path) else {
				return None;
			};
			if o.is_empty() {
				return None;
			}
			let i = rng.below(o.len());
			let e = o[i].clone();
			let k = rng.range(i + 1, o.len());
			o.insert(k, e);
			let mut p = s.path.clone();
			p.push(i);
			let a = offset(doc, &p) - 1;
			p.pop();
			p.push(k);
			let b = offset(doc, &p) - 1;
			Some(Fault {
				what: "duplicate entry",
				kinds: &["DuplicateEntry"],
				offsets: vec![a, b],
				serde: false,
			})
		}
		5 => {
			// missing entries.
			let s = pick(rng, &objects)?;
			let J::Obj(o) = at(doc, &s.path) else {
				return None;
			};
			let required: &[&str] = match s.role {
				Role::Layout => match o.iter().find(|(k, _)| k == "type") {
					Some((_, J::Str(t))) => match t.as_str() {
						"number" | "bytes" => &["type", "datatype"],
						"set" => &["type", "item"],
						"list" => &["type", "node"],
						_ => &["type"],
					},
					_ => return None,
				},
				Role::Format => &["layout"],
				Role::Node | Role::Field | Role::Variant | Role::Item => &["value"],
				Role::Literal => &["value"],
				_ => return None,
			};
			let key = *rng.pick(required);
			o.retain(|(k, _)| k != key);
			let off = offset(doc, &s.path);
			if key == "type" {
				// where a layout is not the only possibility, it is now read
				// as something else.
				let parent = all.iter().any(|t| {
					t.role == Role::Layout && t.path == s.path
				}) && s.path.is_empty();
				if !parent {
					return Some(Fault {
						what: "missing type of a sub layout",
						kinds: &["MissingType", "MissingRequiredEntry", "UnexpectedEntry", "Unexpected"],
						offsets: (off..off + size(at(doc, &s.path))).collect(),
						serde: true,
					});
				}
				return Some(Fault {
					what: "missing type",
					kinds: &["MissingType"],
					offsets: vec![off],
					serde: true,
				});
			}
			Some(Fault {
				what: "missing entry",
				kinds: &["MissingRequiredEntry"],
				offsets: vec![off],
				serde: true,
			})
		}
		6 => {
			let s = pick(rng, &|r| r == Role::Type)?;
			*at(doc, &s.path) = J::str(*rng.pick(&["Record", "object", "", "lists", "array", "recordd"]));
			Some(Fault {
				what: "invalid type",
				kinds: &["InvalidType"],
				offsets: vec![offset(doc, &s.path)],
				serde: true,
			})
		}
		7 => {
			let s = pick(rng, &|r| r == Role::Regex)?;
			*at(doc, &s.path) = J::str(*rng.pick(&["(a", "a)", "[ab", "ab\\", "(a|(b)", "[^a"]));
			Some(Fault {
				what: "invalid regular expression",
				kinds: &["InvalidRegex"],
				offsets: vec![offset(doc, &s.path)],
				serde: true,
			})
		}
		8 => {
			if rng.pct(30) {
				let s = pick(rng, &|r| r == Role::Lang)?;
				*at(doc, &s.path) = J::str(*rng.pick(&["", "e n", "français", "-"]));
				return Some(Fault {
					what: "invalid language",
					kinds: &["InvalidLangTag"],
					offsets: vec![
						offset(doc, &s.path),
						offset(doc, &s.path[..s.path.len() - 1]),
					],
					serde: true,
				});
			}
			let s = pick(rng, &|r| matches!(r, Role::Quad))?;
			let J::Arr(a) = at(doc, &s.path) else {
				return None;
			};
			let many = rng.pct(50);
			if many {
				while a.len() < 5 {
					a.push(J::str("https://ex.org/z"));
				}
			} else {
				a.truncate(rng.below(3));
			}
			Some(Fault {
				what: "wrong number of patterns",
				kinds: if many { &["TooManyQuadPatterns"] } else { &["MissingQuadPattern"] },
				offsets: vec![offset(doc, &s.path)],
				serde: true,
			})
		}
		_ => {
			let s = pick(rng, &|r| {
				matches!(r, Role::Pattern | Role::Graph | Role::Iri | Role::LayoutRef)
			})?;
			let j = at(doc, &s.path);
			if !matches!(j, J::Str(_)) {
				return None;
			}
			*j = J::str(*rng.pick(&["not an iri", "http://[", "<https://ex.org/a>", "a b", "%zz", "_:", "http://é.org/{}"]));
			if matches!(j, J::Str(s) if s == "_:") && !matches!(s.role, Role::Pattern | Role::Graph) {
				return None;
			}
			Some(Fault {
				what: "invalid reference",
				kinds: match s.role {
					Role::Pattern | Role::Graph => &["InvalidPattern"],
					_ => &["InvalidCompactIri", "InvalidPattern"],
				},
				offsets: vec![offset(doc, &s.path)],
				serde: true,
			})
		}
	}
}

fn p09(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let (lays, _) = Gen::library(rng, false);
	for l in &lays {
		let mut j = l.to_json(rng);
		j.shuffle(rng);
		if !matches!(j, J::Obj(_)) {
			continue;
		}
		let text = j.print();
		cov.case = format!("document: {text}\n");
		let a: Layout = guard("serde", || serde_json::from_str(&text))?
			.map_err(|e| Bad::Violation(format!("rejected by serde: {e}")))?;
		// see `has_empty_object`, and known-findings.txt.
		if has_empty_object(&j) {
			cov.hit("documents with empty objects (serde only)");
		}
		let b = match if has_empty_object(&j) {
			Ok((a.clone(), json_syntax::CodeMap::default()))
		} else {
			guard("located", || located(&text))??
		} {
			Ok((l, _)) => l,
			Err((e, _)) => {
				return Err(Bad::Violation(format!(
					"rejected by the located front-end: {e} (at {})",
					e.position()
				)))
			}
		};
		cov.eval();
		if structure(&a) != structure(&b) {
			return Err(Bad::Violation(format!(
				"the front-ends disagree: serde {} (located)",
				difference(&a, &b)
			)));
		}
		// print, and read again.
		let printed = guard("print", || serde_json::to_string(&a))?.map_err(|e| e.to_string())?;
		cov.case.push_str(&format!("printed: {printed}\n"));
		let c: Layout = guard("serde", || serde_json::from_str(&printed))?
			.map_err(|e| Bad::Violation(format!("the printed layout is rejected by serde: {e}")))?;
		if structure(&c) != structure(&a) {
			return Err(Bad::Violation(format!("the printed layout is read as {}", difference(&c, &a))));
		}
		match guard("located", || located(&printed))?? {
			Ok((d, _)) if structure(&d) == structure(&a) => (),
			Ok((d, _)) => {
				return Err(Bad::Violation(format!(
					"the printed layout is read (located) as {}",
					difference(&d, &a)
				)))
			}
			Err((e, _)) => {
				return Err(Bad::Violation(format!(
					"the printed layout is rejected by the located front-end: {e}"
				)))
			}
		}
		cov.hit("valid documents");
		if nodes(&j) >= 20 {
			cov.observe(&text);
			cov.sample(|| text.clone());
		}
		// one fault.
		for _ in 0..3 {
			let mut bad = j.clone();
			let Some(f) = fault(rng, &mut bad) else {
				continue;
			};
			if has_empty_object(&bad) {
				continue;
			}
			let text = bad.print();
			cov.case = format!("faulty document ({}): {text}\n", f.what);
			let r = guard("located", || located(&text))??;
			cov.eval();
			match r {
				Ok((l, _)) => {
					return Err(Bad::Violation(format!(
						"a document with a fault ({}) is accepted by the located front-end: {l:?}",
						f.what
					)))
				}
				Err((e, map)) => {
					let position = e.position();
					if !f.kinds.contains(&kind(&e)) {
						return Err(Bad::Violation(format!(
							"unexpected error {e:?} at {position}, expected {:?} at {:?}",
							f.kinds, f.offsets
						)));
					}
					if !f.offsets.contains(&position) {
						return Err(Bad::Violation(format!(
							"error {e:?} reported at {position}, expected {:?} (fragment {:?})",
							f.offsets,
							map.get(position).map(|m| &text[m.span.start()..m.span.end()])
						)));
					}
					for h in e.hints() {
						if h.position().is_some_and(|p| !f.offsets.contains(&p) || p == position)
						{
							return Err(Bad::Violation(format!("wrong hint position for {e:?}")));
						}
					}
					cov.hit(format!("{}: {}", f.what, kind(&e)));
				}
			}
			let r = guard("serde", || serde_json::from_str::<Layout>(&text))?;
			if f.serde && r.is_ok() {
				return Err(Bad::Violation(format!(
					"a document with a fault ({}) is accepted by serde: {:?}",
					f.what,
					r.unwrap()
				)));
			}
			if nodes(&bad) >= 20 {
				cov.observe(&text);
			}
		}
	}
	Ok(())
}

enum Slot<'a> {
	Header(&'a mut Header),
	Pat(&'a mut Pat),
	Iri(&'a mut String),
	Intro(&'a mut Option<Vec<String>>),
	Property(&'a mut Option<Pat>),
}

fn visit_quads(d: &mut [QuadP], f: &mut dyn FnMut(Slot)) {
	for q in d {
		f(Slot::Pat(&mut q.0));
		f(Slot::Pat(&mut q.1));
		f(Slot::Pat(&mut q.2));
		if let Some(g) = &mut q.3 {
			f(Slot::Pat(g))
		}
	}
}

fn visit_ref(l: &mut LRef, f: &mut dyn FnMut(Slot)) {
	match l {
		LRef::Ref(i) => f(Slot::Iri(i)),
		LRef::Inline(l) => visit(l, f),
	}
}

fn visit_fmt(m: &mut Fmt, f: &mut dyn FnMut(Slot)) {
	match m {
		Fmt::Layout(l) => visit_ref(l, f),
		Fmt::Format(l, i, g) => {
			visit_ref(l, f);
			for p in i.iter_mut().flatten() {
				f(Slot::Pat(p))
			}
			if let GraphA::Pat(p) = g {
				f(Slot::Pat(p))
			}
		}
	}
}

fn visit_comp(c: &mut Comp, field: bool, f: &mut dyn FnMut(Slot)) {
	f(Slot::Intro(&mut c.intro));
	visit_fmt(&mut c.fmt, f);
	visit_quads(&mut c.dataset, f);
	if let Some(p) = &mut c.property {
		f(Slot::Pat(p))
	}
	if field {
		f(Slot::Property(&mut c.property))
	}
}

fn visit(l: &mut Lay, f: &mut dyn FnMut(Slot)) {
	if let Some(h) = l.header_mut() {
		f(Slot::Header(h));
		visit_quads(&mut h.dataset, f);
		if let Some(i) = &mut h.id {
			f(Slot::Iri(i))
		}
		for (k, v) in &mut h.extra {
			f(Slot::Iri(k));
			if let Extra::Typed(_, t) = v {
				f(Slot::Iri(t))
			}
		}
	}
	match l {
		Lay::Bool(_) | Lay::Unit(..) => (),
		Lay::Boolean(_, r, d) => {
			r.iter_mut().for_each(|p| f(Slot::Pat(p)));
			d.iter_mut().for_each(|p| f(Slot::Iri(p)));
		}
		Lay::Number(_, r, d) | Lay::Bytes(_, r, d) => {
			r.iter_mut().for_each(|p| f(Slot::Pat(p)));
			f(Slot::Iri(d));
		}
		Lay::Str(_, r, d, p) => {
			let _ = p;
			r.iter_mut().for_each(|p| f(Slot::Pat(p)));
			d.iter_mut().for_each(|p| f(Slot::Iri(p)));
		}
		Lay::Id(_, r, _) => r.iter_mut().for_each(|p| f(Slot::Pat(p))),
		Lay::Record(_, c) => c.iter_mut().for_each(|(_, c)| visit_comp(c, true, f)),
		Lay::Sum(_, c) => c.iter_mut().for_each(|(_, c)| visit_comp(c, false, f)),
		Lay::Set(_, c) => visit_comp(c, true, f),
		Lay::Tuple(_, c) => c.iter_mut().for_each(|c| visit_comp(c, true, f)),
		Lay::List(_, n, h, t) => {
			h.iter_mut().for_each(|p| f(Slot::Pat(p)));
			t.iter_mut().for_each(|p| f(Slot::Pat(p)));
			match &mut **n {
				Node::Layout(l) => visit_ref(l, f),
				Node::Node { fmt, dataset, intro, .. } => {
					f(Slot::Intro(intro));
					visit_fmt(fmt, f);
					if let Some(d) = dataset {
						visit_quads(d, f)
					}
				}
			}
		}
	}
}

fn break_name(rng: &mut Rng, s: Slot) {
	let bad_iri = |rng: &mut Rng| {
		rng.pick(&["rel/path", "", "nope:x", "//host/x", "?q", "#f", "../up"]).to_string()
	};
	match s {
		Slot::Header(h) => match rng.below(5) {
			0 => h.base = None,
			1 => h.input = Some(Vec::new()),
			2 => h.input = Some(vec!["other".into()]),
			3 => h.intro.clear(),
			_ => {
				if !h.prefixes.is_empty() {
					let i = rng.below(h.prefixes.len());
					if rng.pct(50) {
						h.prefixes.remove(i);
					} else {
						h.prefixes[i].1 = bad_iri(rng);
					}
				}
			}
		},
		Slot::Pat(p) => {
			*p = match rng.below(3) {
				0 => Pat::var(rng.pick(&["nope", "value", "self", "head", "rest", "input0"])),
				1 => Pat::Iri(bad_iri(rng)),
				_ => Pat::Lit("a".into(), LitTy::Type(bad_iri(rng))),
			}
		}
		Slot::Iri(i) => {
			*i = if rng.pct(60) { bad_iri(rng) } else { format!("{EX}L{}", rng.below(3)) }
		}
		Slot::Intro(i) => {
			*i = match rng.below(3) {
				0 => None,
				1 => Some(Vec::new()),
				_ => Some(vec!["other".into()]),
			}
		}
		Slot::Property(p) => *p = Some(Pat::Iri(format!("{EX}prop"))),
	}
}

/// Patterns made from terms denote these terms, and can be printed.
fn term_patterns(rng: &mut Rng, cov: &mut Cov) -> Case {
	use rdf_types::{BlankIdBuf, Id, LiteralType, Term};
	use tl::abs::syntax::{Pattern, Scope};
	let iris = ["urn:a", "http://a.b/c?d#e", "p:q", XSD, "https://treeldr.org/prelude#u8", "http://www.w3.org/2001/XMLSchema#string"];
	let mut some = || iref::IriBuf::new(rng.pick(&iris).to_string()).unwrap();
	let (a, b) = (some(), some());
	let t = match rng.below(4) {
		0 => Term::Id(Id::Iri(a)),
		1 => Term::Id(Id::Blank(BlankIdBuf::from_suffix(*rng.pick(&["a", "0", "_x:y", "self", "é-\u{b7}"])).unwrap())),
		2 => Term::Literal(rdf_types::Literal::new(unusual(rng), LiteralType::Any(b))),
		_ => Term::Literal(rdf_types::Literal::new(
			unusual(rng),
			LiteralType::LangString(langtag::LangTagBuf::new(rng.pick(&["en", "fr-FR", "x-a", "EN-us"]).to_string()).unwrap()),
		)),
	};
	cov.case.push_str(&format!("pattern of the term {t:?}\n"));
	cov.eval();
	let p = guard("from_term", || Pattern::from_term(t.clone()))?;
	let back = guard("to_term", || p.to_term(&Scope::default()))?;
	if back.as_ref().ok() != Some(&t) {
		return Err(Bad::Violation(format!("{p:?} denotes {back:?}")));
	}
	let text = serde_json::to_string(&p).map_err(|e| e.to_string())?;
	let one: Result<Pattern, _> = serde_json::from_str(&text);
	if one.as_ref().ok() != Some(&p) {
		return Err(Bad::Violation(format!("{p:?} printed as {text}, read as {one:?}")));
	}
	let (v, map) = json_syntax::Value::parse_str(&text).map_err(|e| e.to_string())?;
	let two = Pattern::try_from_json(&v, &map);
	match two {
		Ok(q) if q == p => (),
		o => return Err(Bad::Violation(format!("{p:?} printed as {text}, read as {o:?} by the located reader"))),
	}
	cov.hit("pattern of a term");
	Ok(())
}

fn p10(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	if rng.pct(3) {
		return term_patterns(rng, cov);
	}
	let (mut lays, _) = Gen::library(rng, false);
	let broken = rng.pct(50);
	if broken {
		let mut n = 0;
		for l in &mut lays {
			visit(l, &mut |_| n += 1);
		}
		if n > 0 {
			for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
				let k = rng.below(n);
				let mut i = 0;
				for l in &mut lays {
					visit(l, &mut |s| {
						if i == k {
							break_name(rng, s)
						}
						i += 1;
					});
				}
			}
		}
		if rng.pct(8) {
			let l = rng.pick(&lays).clone();
			lays.push(l);
		}
	}
	let docs: Vec<String> = lays
		.iter()
		.map(|l| {
			let mut j = l.to_json(rng);
			j.shuffle(rng);
			j.print()
		})
		.collect();
	cov.case = format!("layouts:\n{}\n", docs.join("\n"));
	let expected = compile(&lays.iter().collect::<Vec<_>>());
	let mut builder = tl::abs::Builder::new();
	let mut refs = Vec::new();
	let mut error = None;
	for d in &docs {
		let l: Layout = match guard("serde", || serde_json::from_str(d))? {
			Ok(l) => l,
			Err(e) => {
				// not an abstract syntax fault: all the IRI references above
				// are valid ones.
				return Err(Bad::Violation(format!("rejected by serde: {e}")));
			}
		};
		match guard("build", || l.build(&mut builder))? {
			Ok(r) => refs.push(r),
			Err(e) => {
				error = Some(e);
				break;
			}
		}
	}
	cov.eval();
	match (expected, error) {
		(Ok((reg, roots)), None) => {
			let layouts = guard("build", || builder.build())?;
			let mut km = KeyMap::default();
			for (i, (k, r)) in roots.iter().zip(&refs).enumerate() {
				km.walk(&format!("layout {i}"), &reg, &layouts, k, r.id());
			}
			if !km.diffs.is_empty() {
				return Err(Bad::Violation(format!(
					"the compiled layouts are not the expected ones:\n{}",
					km.diffs.join("\n")
				)));
			}
			let n = layouts.iter().count();
			if n != reg.lays.len() {
				return Err(Bad::Violation(format!(
					"{n} layouts are compiled instead of {}",
					reg.lays.len()
				)));
			}
			for (k, l) in &reg.lays {
				let _ = k;
				cov.hit(format!("compiled: {}", l.name()));
			}
			if n >= 3 {
				cov.observe(&cov.case.clone());
				let case = cov.case.clone();
				cov.sample(|| case);
			}
			Ok(())
		}
		(Err(errs), Some(e)) => {
			use tl::abs::syntax::BuildError as B;
			let found = match &e {
				B::NoBaseIri(_) => BErr::NoBaseIri,
				B::InvalidIri(_) => BErr::InvalidIri,
				B::UndeclaredVariable(x) => BErr::Undeclared(x.clone()),
				B::LayoutRedefinition => BErr::Redefinition,
				B::MissingLiteralTargetResource => BErr::MissingLiteralTarget,
				B::NoPropertySubject => BErr::NoPropSubject,
				B::NoPropertyObject => BErr::NoPropObject,
			};
			if !errs.contains(&found) {
				return Err(Bad::Violation(format!(
					"building the layouts fails with `{e}`, expected one of {errs:?}"
				)));
			}
			let k = format!("{found:?}");
			cov.hit(format!("error {}", k.split('(').next().unwrap_or("")));
			cov.observe(&cov.case.clone());
			Ok(())
		}
		(Ok(_), Some(e)) => Err(Bad::Violation(format!("valid layouts are rejected: {e}"))),
		(Err(errs), None) => Err(Bad::Violation(format!(
			"invalid layouts are accepted, expected one of {errs:?}"
		))),
	}
}

/// Known findings (see known-findings.txt): does it still fail?
pub fn located_empty_object() -> bool {
	let text = r#"{"type": "sum", "input": ["b", "c"], "variants": {}, "id": "https://ex.org/L0", "dataset": [["_:b", "https://ex.org/p", "https://ex.org/T1"], ["_:c", "_:c", "_:c"]]}"#;
	!matches!(guard("located", || located(text)), Ok(Ok(Ok(_))))
}
