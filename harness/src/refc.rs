//! Reference compiler: from the harness AST to resolved layouts.
use crate::ast::*;
use crate::json::J;
use crate::rx::Rx;
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{Literal as RdfLiteral, LiteralType, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{value::Number, Literal, Value};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

pub fn iri(s: &str) -> Term {
	Term::iri(iref::IriBuf::new(s.to_string()).unwrap())
}

pub fn lit(v: &str, ty: &str) -> Term {
	Term::Literal(RdfLiteral::new(
		v.to_string(),
		LiteralType::Any(iref::IriBuf::new(ty.to_string()).unwrap()),
	))
}

pub fn lang(v: &str, tag: &str) -> Term {
	Term::Literal(RdfLiteral::new(
		v.to_string(),
		LiteralType::LangString(langtag::LangTagBuf::new(tag.to_string()).unwrap()),
	))
}

pub fn num(n: BigRational) -> Value {
	Value::Literal(Literal::Number(Number::new(n)))
}

pub fn int(n: i64) -> Value {
	num(BigRational::from_integer(BigInt::from(n)))
}

/// Parses a JSON/XSD decimal number (with optional exponent) exactly.
pub fn parse_decimal(s: &str) -> Option<BigRational> {
	let (m, e) = match s.find(['e', 'E']) {
		Some(i) => (&s[..i], s[i + 1..].parse::<i64>().ok()?),
		None => (s, 0),
	};
	let (neg, m) = match m.as_bytes().first()? {
		b'-' => (true, &m[1..]),
		b'+' => (false, &m[1..]),
		_ => (false, m),
	};
	let mut mantissa = BigInt::from(0);
	let mut scale = e;
	let mut dot = false;
	let mut digits = 0;
	for c in m.chars() {
		match c {
			'.' if !dot => dot = true,
			'0'..='9' => {
				mantissa = mantissa * 10 + BigInt::from(c as u32 - '0' as u32);
				digits += 1;
				if dot {
					scale -= 1;
				}
			}
			_ => return None,
		}
	}
	if digits == 0 {
		return None;
	}
	if neg {
		mantissa = -mantissa;
	}
	let pow = |n: i64| {
		let mut r = BigInt::from(1);
		for _ in 0..n {
			r *= 10;
		}
		r
	};
	Some(if scale >= 0 {
		BigRational::from_integer(mantissa * pow(scale))
	} else {
		BigRational::new(mantissa, pow(-scale))
	})
}

pub fn json_value(j: &J) -> Value {
	match j {
		J::Null => Value::Literal(Literal::Unit),
		J::Bool(b) => Value::Literal(Literal::Boolean(*b)),
		J::Num(n) => num(parse_decimal(n).unwrap()),
		J::Str(s) => Value::Literal(Literal::TextString(s.clone())),
		J::Arr(a) => Value::List(a.iter().map(json_value).collect()),
		J::Obj(o) => Value::Map(
			o.iter()
				.map(|(k, v)| {
					(
						Value::Literal(Literal::TextString(k.clone())),
						json_value(v),
					)
				})
				.collect(),
		),
	}
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Key {
	Iri(String),
	Anon(usize),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum RPat {
	Var(usize),
	Term(Term),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct RQuad(pub RPat, pub RPat, pub RPat, pub Option<RPat>);

#[derive(Debug, Clone, PartialEq)]
pub enum RGraph {
	Keep,
	Default,
	Pat(RPat),
}

#[derive(Debug, Clone, PartialEq)]
pub struct RFmt {
	pub layout: Key,
	pub input: Vec<RPat>,
	pub graph: RGraph,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct RHead {
	pub input: usize,
	pub intro: usize,
	pub dataset: BTreeSet<RQuad>,
	pub extra: BTreeMap<String, Extra>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct RComp {
	pub intro: usize,
	pub dataset: BTreeSet<RQuad>,
	pub fmt: RFmt,
	pub required: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
	Boolean,
	Number,
	Bytes,
	Str,
	Id,
}

#[derive(Debug, Clone)]
pub enum RLay {
	Never,
	Always,
	Unit(RHead, Value),
	Lit {
		head: RHead,
		kind: Kind,
		resource: RPat,
		/// Datatype IRI (empty for ids).
		datatype: String,
		pattern: Option<(String, Rx)>,
	},
	Record(RHead, BTreeMap<Value, RComp>),
	Sum(RHead, Vec<(String, RComp)>),
	Set(RHead, RComp),
	Tuple(RHead, Vec<RComp>),
	List {
		head: RHead,
		node: RComp,
		first: RPat,
		tail: RPat,
	},
}

impl RLay {
	pub fn head(&self) -> Option<&RHead> {
		match self {
			RLay::Never | RLay::Always => None,
			RLay::Unit(h, _)
			| RLay::Lit { head: h, .. }
			| RLay::Record(h, _)
			| RLay::Sum(h, _)
			| RLay::Set(h, _)
			| RLay::Tuple(h, _)
			| RLay::List { head: h, .. } => Some(h),
		}
	}

	pub fn input_count(&self) -> Option<usize> {
		self.head().map(|h| h.input)
	}

	pub fn comps(&self) -> Vec<&RComp> {
		match self {
			RLay::Record(_, f) => f.values().collect(),
			RLay::Sum(_, v) => v.iter().map(|(_, c)| c).collect(),
			RLay::Set(_, c) => vec![c],
			RLay::Tuple(_, c) => c.iter().collect(),
			RLay::List { node, .. } => vec![node],
			_ => vec![],
		}
	}

	pub fn name(&self) -> &'static str {
		match self {
			RLay::Never => "never",
			RLay::Always => "always",
			RLay::Unit(..) => "unit",
			RLay::Lit { kind, .. } => match kind {
				Kind::Boolean => "boolean",
				Kind::Number => "number",
				Kind::Bytes => "bytes",
				Kind::Str => "string",
				Kind::Id => "id",
			},
			RLay::Record(..) => "record",
			RLay::Sum(..) => "sum",
			RLay::Set(..) => "set",
			RLay::Tuple(..) => "tuple",
			RLay::List { .. } => "list",
		}
	}
}

#[derive(Debug, Clone, Default)]
pub struct RReg {
	pub lays: BTreeMap<Key, RLay>,
	pub anon: usize,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum BErr {
	NoBaseIri,
	InvalidIri,
	Undeclared(String),
	Redefinition,
	MissingLiteralTarget,
	NoPropSubject,
	NoPropObject,
}

#[derive(Debug, Clone, Default)]
pub struct Sc {
	pub base: Option<String>,
	pub prefixes: BTreeMap<String, String>,
	/// Names of the variables, by index. The last one shadows the others.
	pub vars: Vec<String>,
}

impl Sc {
	fn without_vars(&self) -> Sc {
		Sc {
			base: self.base.clone(),
			prefixes: self.prefixes.clone(),
			vars: vec![],
		}
	}

	fn with(&self, names: &[String]) -> Sc {
		let mut r = self.clone();
		r.vars.extend(names.iter().cloned());
		r
	}

	pub fn var(&self, name: &str) -> Option<usize> {
		self.vars.iter().rposition(|n| n == name)
	}

	pub fn resolve(&self, s: &str) -> Result<String, BErr> {
		let abs = scheme(s);
		match abs {
			Some(scheme) => match self.prefixes.get(scheme) {
				Some(p) => {
					let r = format!("{p}{}", &s[scheme.len() + 1..]);
					match iref::Iri::new(&r) {
						Ok(_) => Ok(r),
						Err(_) => Err(BErr::InvalidIri),
					}
				}
				None => Ok(s.to_string()),
			},
			None => match &self.base {
				Some(b) => Ok(resolve_ref(b, s)),
				None => Err(BErr::NoBaseIri),
			},
		}
	}
}

fn scheme(s: &str) -> Option<&str> {
	let i = s.find([':', '/', '?', '#'])?;
	if s.as_bytes()[i] == b':' && i > 0 && s.as_bytes()[0].is_ascii_alphabetic() {
		Some(&s[..i])
	} else {
		None
	}
}

struct Parts<'a> {
	scheme: &'a str,
	auth: Option<&'a str>,
	path: &'a str,
	query: Option<&'a str>,
	frag: Option<&'a str>,
}

fn parts(s: &str) -> Parts<'_> {
	let (s, frag) = match s.find('#') {
		Some(i) => (&s[..i], Some(&s[i + 1..])),
		None => (s, None),
	};
	let (s, query) = match s.find('?') {
		Some(i) => (&s[..i], Some(&s[i + 1..])),
		None => (s, None),
	};
	let (scheme, s) = match scheme(s) {
		Some(sc) => (sc, &s[sc.len() + 1..]),
		None => ("", s),
	};
	let (auth, path) = match s.strip_prefix("//") {
		Some(r) => match r.find('/') {
			Some(i) => (Some(&r[..i]), &r[i..]),
			None => (Some(r), ""),
		},
		None => (None, s),
	};
	Parts {
		scheme,
		auth,
		path,
		query,
		frag,
	}
}

fn remove_dots(path: &str) -> String {
	let mut input = path.to_string();
	let mut out = String::new();
	while !input.is_empty() {
		if input.starts_with("../") {
			input = input[3..].to_string();
		} else if input.starts_with("./") {
			input = input[2..].to_string();
		} else if input.starts_with("/./") {
			input = input[2..].to_string();
		} else if input == "/." {
			input = "/".to_string();
		} else if input.starts_with("/../") || input == "/.." {
			input = if input == "/.." {
				"/".to_string()
			} else {
				input[3..].to_string()
			};
			let i = out.rfind('/').unwrap_or(0);
			out.truncate(i);
		} else if input == "." || input == ".." {
			input.clear();
		} else {
			let start = usize::from(input.starts_with('/'));
			let end = input[start..]
				.find('/')
				.map(|i| i + start)
				.unwrap_or(input.len());
			out.push_str(&input[..end]);
			input = input[end..].to_string();
		}
	}
	out
}

/// RFC 3986 section 5.2.
pub fn resolve_ref(base: &str, r: &str) -> String {
	let b = parts(base);
	let r = parts(r);
	let (auth, path, query);
	if r.auth.is_some() {
		auth = r.auth;
		path = remove_dots(r.path);
		query = r.query;
	} else {
		if r.path.is_empty() {
			path = b.path.to_string();
			query = r.query.or(b.query);
		} else {
			if r.path.starts_with('/') {
				path = remove_dots(r.path);
			} else {
				let merged = if b.auth.is_some() && b.path.is_empty() {
					format!("/{}", r.path)
				} else {
					match b.path.rfind('/') {
						Some(i) => format!("{}{}", &b.path[..=i], r.path),
						None => r.path.to_string(),
					}
				};
				path = remove_dots(&merged);
			}
			query = r.query;
		}
		auth = b.auth;
	}
	let mut out = format!("{}:", b.scheme);
	if let Some(a) = auth {
		out.push_str("//");
		out.push_str(a);
	}
	out.push_str(&path);
	if let Some(q) = query {
		out.push('?');
		out.push_str(q);
	}
	if let Some(f) = r.frag {
		out.push('#');
		out.push_str(f);
	}
	out
}

pub struct Compiler {
	pub reg: RReg,
	pub errs: BTreeSet<BErr>,
}

type R<T> = Option<T>;

impl Compiler {
	pub fn new() -> Self {
		Self {
			reg: RReg::default(),
			errs: BTreeSet::new(),
		}
	}

	fn ok<T>(&mut self, r: Result<T, BErr>) -> R<T> {
		match r {
			Ok(t) => Some(t),
			Err(e) => {
				self.errs.insert(e);
				None
			}
		}
	}

	fn pat(&mut self, p: &Pat, sc: &Sc) -> R<RPat> {
		match p {
			Pat::Var(x) => {
				let r = sc.var(x).ok_or_else(|| BErr::Undeclared(x.clone()));
				self.ok(r).map(RPat::Var)
			}
			Pat::Iri(i) => {
				let i = self.ok(sc.resolve(i))?;
				Some(RPat::Term(iri(&i)))
			}
			Pat::Lit(v, t) => match t {
				LitTy::Type(t) => {
					let t = self.ok(sc.resolve(t))?;
					Some(RPat::Term(lit(v, &t)))
				}
				LitTy::Lang(l) => Some(RPat::Term(lang(v, l))),
			},
		}
	}

	fn quads(&mut self, d: &[QuadP], sc: &Sc) -> R<BTreeSet<RQuad>> {
		let mut out = BTreeSet::new();
		let mut ok = true;
		for q in d {
			let s = self.pat(&q.0, sc);
			let p = self.pat(&q.1, sc);
			let o = self.pat(&q.2, sc);
			let g = q.3.as_ref().map(|g| self.pat(g, sc));
			match (s, p, o, g) {
				(Some(s), Some(p), Some(o), None) => {
					out.insert(RQuad(s, p, o, None));
				}
				(Some(s), Some(p), Some(o), Some(Some(g))) => {
					out.insert(RQuad(s, p, o, Some(g)));
				}
				_ => ok = false,
			}
		}
		ok.then_some(out)
	}

	fn header(&mut self, h: &Header, outer: &Sc) -> (R<RHead>, Sc) {
		let mut sc = outer.clone();
		let mut ok = true;
		if let Some(b) = &h.base {
			match self.ok(outer.resolve(b)) {
				Some(b) => sc.base = Some(b),
				None => ok = false,
			}
		}
		for (k, v) in &h.prefixes {
			match self.ok(outer.resolve(v)) {
				Some(v) => {
					sc.prefixes.insert(k.clone(), v);
				}
				None => ok = false,
			}
		}
		let inputs = h.inputs();
		sc.vars.extend(inputs.iter().cloned());
		sc.vars.extend(h.intro.iter().cloned());
		if !ok {
			return (None, sc);
		}
		let dataset = self.quads(&h.dataset, &sc);
		let mut extra = BTreeMap::new();
		for (k, v) in &h.extra {
			let k = self.ok(sc.resolve(k));
			let v = match v {
				Extra::Typed(v, t) => self.ok(sc.resolve(t)).map(|t| Extra::Typed(v.clone(), t)),
				other => Some(other.clone()),
			};
			match (k, v) {
				(Some(k), Some(v)) => {
					extra.insert(k, v);
				}
				_ => ok = false,
			}
		}
		match dataset {
			Some(dataset) if ok => (
				Some(RHead {
					input: inputs.len(),
					intro: h.intro.len(),
					dataset,
					extra,
				}),
				sc,
			),
			_ => (None, sc),
		}
	}

	fn lref(&mut self, l: &LRef, sc: &Sc) -> R<Key> {
		let sc = sc.without_vars();
		match l {
			LRef::Ref(i) => self.ok(sc.resolve(i)).map(Key::Iri),
			LRef::Inline(l) => self.layout(l, &sc),
		}
	}

	fn fmt(&mut self, f: &Fmt, sc: &Sc, default_input: &str) -> R<RFmt> {
		match f {
			Fmt::Layout(l) => {
				let layout = self.lref(l, sc);
				let input = self.pat(&Pat::var(default_input), sc);
				Some(RFmt {
					layout: layout?,
					input: vec![input?],
					graph: RGraph::Keep,
				})
			}
			Fmt::Format(l, input, graph) => {
				let layout = self.lref(l, sc);
				let input: Vec<_> = match input {
					Some(i) => i.iter().map(|p| self.pat(p, sc)).collect(),
					None => vec![self.pat(&Pat::var(default_input), sc)],
				};
				let graph = match graph {
					GraphA::Keep => Some(RGraph::Keep),
					GraphA::Default => Some(RGraph::Default),
					GraphA::Pat(p) => self.pat(p, sc).map(RGraph::Pat),
				};
				Some(RFmt {
					layout: layout?,
					input: input.into_iter().collect::<Option<Vec<_>>>()?,
					graph: graph?,
				})
			}
		}
	}

	fn comp(&mut self, c: &Comp, sc: &Sc, inputs: usize, variant: bool) -> R<RComp> {
		let intro = c.intro.clone().unwrap_or_else(|| {
			if variant {
				vec![]
			} else {
				vec!["value".to_string()]
			}
		});
		let object = sc.vars.len();
		let inner = sc.with(&intro);
		let mut dataset = self.quads(&c.dataset, &inner);
		if let Some(p) = &c.property {
			let p = self.pat(p, &inner);
			let mut ok = true;
			if inputs == 0 {
				self.errs.insert(BErr::NoPropSubject);
				ok = false;
			}
			if intro.is_empty() {
				self.errs.insert(BErr::NoPropObject);
				ok = false;
			}
			match (p, dataset.as_mut()) {
				(Some(p), Some(d)) if ok => {
					d.insert(RQuad(RPat::Var(0), p, RPat::Var(object), None));
				}
				_ => dataset = None,
			}
		}
		let fmt = self.fmt(&c.fmt, &inner, if variant { "self" } else { "value" });
		Some(RComp {
			intro: intro.len(),
			dataset: dataset?,
			fmt: fmt?,
			required: c.required,
		})
	}

	fn resource(&mut self, r: &Option<Pat>, h: &Header, sc: &Sc) -> R<RPat> {
		match r {
			Some(p) => self.pat(p, sc),
			None => {
				if h.inputs().is_empty() {
					self.errs.insert(BErr::MissingLiteralTarget);
					None
				} else {
					Some(RPat::Var(0))
				}
			}
		}
	}

	#[allow(clippy::too_many_arguments)]
	fn lit(
		&mut self,
		h: &Header,
		outer: &Sc,
		kind: Kind,
		r: &Option<Pat>,
		dt: Option<String>,
		pattern: &Option<String>,
	) -> R<RLay> {
		let (head, sc) = self.header(h, outer);
		let resource = self.resource(r, h, &sc);
		let datatype = match dt {
			Some(d) => self.ok(sc.resolve(&d)),
			None => Some(String::new()),
		};
		Some(RLay::Lit {
			head: head?,
			kind,
			resource: resource?,
			datatype: datatype?,
			pattern: pattern
				.as_ref()
				.map(|p| (p.clone(), Rx::parse(p).expect("reference regexp"))),
		})
	}

	pub fn layout(&mut self, l: &Lay, outer: &Sc) -> R<Key> {
		let id = match l.header().and_then(|h| h.id.as_ref()) {
			Some(i) => self.ok(outer.resolve(i)).map(Key::Iri),
			None => {
				let k = Key::Anon(self.reg.anon);
				self.reg.anon += 1;
				Some(k)
			}
		};
		let built = match l {
			Lay::Bool(true) => Some(RLay::Always),
			Lay::Bool(false) => Some(RLay::Never),
			Lay::Unit(h, c) => {
				let (head, _) = self.header(h, outer);
				head.map(|h| {
					RLay::Unit(
						h,
						c.as_ref()
							.map(json_value)
							.unwrap_or(Value::Literal(Literal::Unit)),
					)
				})
			}
			Lay::Boolean(h, r, d) => self.lit(
				h,
				outer,
				Kind::Boolean,
				r,
				Some(d.clone().unwrap_or(format!("{XSD}boolean"))),
				&None,
			),
			Lay::Number(h, r, d) => self.lit(h, outer, Kind::Number, r, Some(d.clone()), &None),
			Lay::Bytes(h, r, d) => self.lit(h, outer, Kind::Bytes, r, Some(d.clone()), &None),
			Lay::Str(h, r, d, p) => self.lit(
				h,
				outer,
				Kind::Str,
				r,
				Some(d.clone().unwrap_or(format!("{XSD}string"))),
				p,
			),
			Lay::Id(h, r, p) => self.lit(h, outer, Kind::Id, r, None, p),
			Lay::Record(h, fields) => {
				let (head, sc) = self.header(h, outer);
				let mut out = BTreeMap::new();
				let mut ok = true;
				for (k, f) in fields {
					match self.comp(f, &sc, h.inputs().len(), false) {
						Some(c) => {
							out.insert(Value::Literal(Literal::TextString(k.clone())), c);
						}
						None => ok = false,
					}
				}
				head.filter(|_| ok).map(|h| RLay::Record(h, out))
			}
			Lay::Sum(h, variants) => {
				let (head, sc) = self.header(h, outer);
				let mut out = BTreeMap::new();
				let mut ok = true;
				for (k, f) in variants {
					match self.comp(f, &sc, h.inputs().len(), true) {
						Some(c) => {
							out.insert(k.clone(), c);
						}
						None => ok = false,
					}
				}
				head.filter(|_| ok)
					.map(|h| RLay::Sum(h, out.into_iter().collect()))
			}
			Lay::Set(h, c) => {
				let (head, sc) = self.header(h, outer);
				let c = self.comp(c, &sc, h.inputs().len(), false);
				match (head, c) {
					(Some(h), Some(c)) => Some(RLay::Set(h, c)),
					_ => None,
				}
			}
			Lay::Tuple(h, items) => {
				let (head, sc) = self.header(h, outer);
				let items: Vec<_> = items
					.iter()
					.map(|c| self.comp(c, &sc, h.inputs().len(), false))
					.collect();
				let items = items.into_iter().collect::<Option<Vec<_>>>();
				match (head, items) {
					(Some(h), Some(c)) => Some(RLay::Tuple(h, c)),
					_ => None,
				}
			}
			Lay::List(h, node, first, tail) => {
				let (head, sc) = self.header(h, outer);
				let hv = sc.vars.len();
				let rdf_list = |first: RPat| {
					[
						RQuad(
							RPat::Var(hv),
							RPat::Term(iri(&format!("{RDF}first"))),
							first,
							None,
						),
						RQuad(
							RPat::Var(hv),
							RPat::Term(iri(&format!("{RDF}rest"))),
							RPat::Var(hv + 1),
							None,
						),
					]
					.into_iter()
					.collect::<BTreeSet<_>>()
				};
				let node = match &**node {
					Node::Layout(l) => self.lref(l, &sc).map(|k| RComp {
						intro: 1,
						dataset: rdf_list(RPat::Var(hv + 2)),
						fmt: RFmt {
							layout: k,
							input: vec![RPat::Var(hv + 2)],
							graph: RGraph::Keep,
						},
						required: true,
					}),
					Node::Node {
						head,
						rest,
						intro,
						fmt,
						dataset,
					} => {
						let intro = intro.clone().unwrap_or_else(|| vec!["value".to_string()]);
						let mut names = vec![
							head.clone().unwrap_or("head".to_string()),
							rest.clone().unwrap_or("rest".to_string()),
						];
						names.extend(intro.iter().cloned());
						let inner = sc.with(&names);
						let dataset = match dataset {
							Some(d) => self.quads(d, &inner),
							None => {
								let first = match fmt {
									Fmt::Layout(_) => Some(Pat::var("value")),
									Fmt::Format(_, None, _) => Some(Pat::var("value")),
									Fmt::Format(_, Some(i), _) if i.len() == 1 => {
										Some(i[0].clone())
									}
									_ => None,
								};
								match first {
									Some(p) => self.pat(&p, &inner).map(rdf_list),
									None => Some(BTreeSet::new()),
								}
							}
						};
						let fmt = self.fmt(fmt, &inner, "value");
						match (dataset, fmt) {
							(Some(dataset), Some(fmt)) => Some(RComp {
								intro: intro.len(),
								dataset,
								fmt,
								required: true,
							}),
							_ => None,
						}
					}
				};
				let first = self.pat(first.as_ref().unwrap_or(&Pat::var("self")), &sc);
				let nil = Pat::Iri(format!("{RDF}nil"));
				let tail = self.pat(tail.as_ref().unwrap_or(&nil), &sc);
				match (head, node, first, tail) {
					(Some(head), Some(node), Some(first), Some(tail)) => Some(RLay::List {
						head,
						node,
						first,
						tail,
					}),
					_ => None,
				}
			}
		};
		let id = id?;
		match built {
			Some(b) => {
				if self.reg.lays.insert(id.clone(), b).is_some() {
					self.errs.insert(BErr::Redefinition);
				}
				Some(id)
			}
			None => None,
		}
	}
}

/// Compiles a list of top level layouts.
pub fn compile(layouts: &[&Lay]) -> Result<(RReg, Vec<Key>), BTreeSet<BErr>> {
	let mut c = Compiler::new();
	let mut roots = Vec::new();
	for l in layouts {
		if let Some(k) = c.layout(l, &Sc::default()) {
			roots.push(k)
		}
	}
	if c.errs.is_empty() {
		Ok((c.reg, roots))
	} else {
		Err(c.errs)
	}
}
