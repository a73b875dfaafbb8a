//! Harness-side abstract syntax of layouts, and its JSON form.
use crate::json::J;
use crate::rng::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum LitTy {
	Type(String),
	Lang(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Pat {
	Var(String),
	Iri(String),
	Lit(String, LitTy),
}

impl Pat {
	pub fn var(s: &str) -> Pat {
		Pat::Var(s.to_string())
	}

	pub fn to_json(&self) -> J {
		match self {
			Pat::Var(x) => J::Str(format!("_:{x}")),
			Pat::Iri(i) => J::Str(i.clone()),
			Pat::Lit(v, t) => {
				let mut o = vec![("value".to_string(), J::str(v.clone()))];
				match t {
					LitTy::Type(t) => o.push(("type".to_string(), J::str(t.clone()))),
					LitTy::Lang(l) => o.push(("language".to_string(), J::str(l.clone()))),
				}
				J::Obj(o)
			}
		}
	}
}

#[derive(Debug, Clone, PartialEq)]
pub struct QuadP(pub Pat, pub Pat, pub Pat, pub Option<Pat>);

impl QuadP {
	pub fn to_json(&self) -> J {
		let mut a = vec![self.0.to_json(), self.1.to_json(), self.2.to_json()];
		if let Some(g) = &self.3 {
			a.push(g.to_json())
		}
		J::Arr(a)
	}
}

#[derive(Debug, Clone, PartialEq)]
pub enum Extra {
	Bool(bool),
	Num(i64),
	Str(String),
	Typed(String, String),
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Header {
	pub base: Option<String>,
	pub prefixes: Vec<(String, String)>,
	pub id: Option<String>,
	/// `None` is the default (`self`).
	pub input: Option<Vec<String>>,
	pub intro: Vec<String>,
	pub dataset: Vec<QuadP>,
	pub extra: Vec<(String, Extra)>,
}

impl Header {
	pub fn inputs(&self) -> Vec<String> {
		self.input
			.clone()
			.unwrap_or_else(|| vec!["self".to_string()])
	}
}

#[derive(Debug, Clone, PartialEq)]
pub enum Lay {
	Bool(bool),
	Unit(Header, Option<J>),
	Boolean(Header, Option<Pat>, Option<String>),
	Number(Header, Option<Pat>, String),
	Bytes(Header, Option<Pat>, String),
	Str(Header, Option<Pat>, Option<String>, Option<String>),
	Id(Header, Option<Pat>, Option<String>),
	Record(Header, Vec<(String, Comp)>),
	Sum(Header, Vec<(String, Comp)>),
	Set(Header, Box<Comp>),
	Tuple(Header, Vec<Comp>),
	List(Header, Box<Node>, Option<Pat>, Option<Pat>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
	Layout(LRef),
	Node {
		head: Option<String>,
		rest: Option<String>,
		intro: Option<Vec<String>>,
		fmt: Fmt,
		dataset: Option<Vec<QuadP>>,
	},
}

#[derive(Debug, Clone, PartialEq)]
pub enum LRef {
	Ref(String),
	Inline(Box<Lay>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum GraphA {
	Keep,
	Default,
	Pat(Pat),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fmt {
	Layout(LRef),
	Format(LRef, Option<Vec<Pat>>, GraphA),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Comp {
	/// `None` is the default (`value` for fields and items, nothing for
	/// variants).
	pub intro: Option<Vec<String>>,
	pub fmt: Fmt,
	pub dataset: Vec<QuadP>,
	pub property: Option<Pat>,
	pub required: bool,
}

fn strs(v: &[String], rng: &mut Rng) -> J {
	if v.len() == 1 && rng.pct(50) {
		J::str(v[0].clone())
	} else {
		J::Arr(v.iter().map(|s| J::str(s.clone())).collect())
	}
}

fn pats(v: &[Pat], rng: &mut Rng) -> J {
	if v.len() == 1 && rng.pct(50) {
		v[0].to_json()
	} else {
		J::Arr(v.iter().map(Pat::to_json).collect())
	}
}

fn quads(v: &[QuadP]) -> J {
	J::Arr(v.iter().map(QuadP::to_json).collect())
}

type Obj = Vec<(String, J)>;

fn put(o: &mut Obj, k: &str, v: J) {
	o.push((k.to_string(), v))
}

impl Header {
	fn put(&self, o: &mut Obj, rng: &mut Rng) {
		if let Some(b) = &self.base {
			put(o, "base", J::str(b.clone()))
		}
		if !self.prefixes.is_empty() {
			put(
				o,
				"prefixes",
				J::Obj(
					self.prefixes
						.iter()
						.map(|(k, v)| (k.clone(), J::str(v.clone())))
						.collect(),
				),
			)
		}
		if let Some(i) = &self.id {
			put(o, "id", J::str(i.clone()))
		}
		match &self.input {
			Some(i) => put(o, "input", strs(i, rng)),
			None => {
				if rng.pct(15) {
					put(o, "input", J::str("self"))
				}
			}
		}
		if !self.intro.is_empty() || rng.pct(5) {
			put(o, "intro", strs(&self.intro, rng))
		}
		if !self.dataset.is_empty() || rng.pct(5) {
			put(o, "dataset", quads(&self.dataset))
		}
		if !self.extra.is_empty() {
			put(
				o,
				"extra",
				J::Obj(
					self.extra
						.iter()
						.map(|(k, v)| {
							(
								k.clone(),
								match v {
									Extra::Bool(b) => J::Bool(*b),
									Extra::Num(n) => J::Num(n.to_string()),
									Extra::Str(s) => J::str(s.clone()),
									Extra::Typed(v, t) => J::Obj(vec![
										("value".into(), J::str(v.clone())),
										("type".into(), J::str(t.clone())),
									]),
								},
							)
						})
						.collect(),
				),
			)
		}
	}
}

impl LRef {
	pub fn to_json(&self, rng: &mut Rng) -> J {
		match self {
			LRef::Ref(i) => J::str(i.clone()),
			LRef::Inline(l) => l.to_json(rng),
		}
	}
}

impl Fmt {
	pub fn to_json(&self, rng: &mut Rng) -> J {
		match self {
			Fmt::Layout(l) => l.to_json(rng),
			Fmt::Format(l, input, graph) => {
				let mut o = Vec::new();
				put(&mut o, "layout", l.to_json(rng));
				if let Some(i) = input {
					put(&mut o, "input", pats(i, rng))
				}
				match graph {
					GraphA::Keep => (),
					GraphA::Default => put(&mut o, "graph", J::Null),
					GraphA::Pat(p) => put(&mut o, "graph", p.to_json()),
				}
				J::Obj(o)
			}
		}
	}
}

impl Comp {
	pub fn to_json(&self, rng: &mut Rng) -> J {
		let mut o = Vec::new();
		if let Some(i) = &self.intro {
			put(&mut o, "intro", strs(i, rng))
		}
		put(&mut o, "value", self.fmt.to_json(rng));
		if !self.dataset.is_empty() || rng.pct(5) {
			put(&mut o, "dataset", quads(&self.dataset))
		}
		if let Some(p) = &self.property {
			put(&mut o, "property", p.to_json())
		}
		if self.required {
			put(&mut o, "required", J::Bool(true))
		}
		J::Obj(o)
	}
}

impl Lay {
	pub fn header(&self) -> Option<&Header> {
		match self {
			Lay::Bool(_) => None,
			Lay::Unit(h, ..)
			| Lay::Boolean(h, ..)
			| Lay::Number(h, ..)
			| Lay::Bytes(h, ..)
			| Lay::Str(h, ..)
			| Lay::Id(h, ..)
			| Lay::Record(h, ..)
			| Lay::Sum(h, ..)
			| Lay::Set(h, ..)
			| Lay::Tuple(h, ..)
			| Lay::List(h, ..) => Some(h),
		}
	}

	pub fn header_mut(&mut self) -> Option<&mut Header> {
		match self {
			Lay::Bool(_) => None,
			Lay::Unit(h, ..)
			| Lay::Boolean(h, ..)
			| Lay::Number(h, ..)
			| Lay::Bytes(h, ..)
			| Lay::Str(h, ..)
			| Lay::Id(h, ..)
			| Lay::Record(h, ..)
			| Lay::Sum(h, ..)
			| Lay::Set(h, ..)
			| Lay::Tuple(h, ..)
			| Lay::List(h, ..) => Some(h),
		}
	}

	pub fn type_name(&self) -> &'static str {
		match self {
			Lay::Bool(true) => "always",
			Lay::Bool(false) => "never",
			Lay::Unit(..) => "unit",
			Lay::Boolean(..) => "boolean",
			Lay::Number(..) => "number",
			Lay::Bytes(..) => "bytes",
			Lay::Str(..) => "string",
			Lay::Id(..) => "id",
			Lay::Record(..) => "record",
			Lay::Sum(..) => "sum",
			Lay::Set(..) => "set",
			Lay::Tuple(..) => "tuple",
			Lay::List(..) => "list",
		}
	}

	pub fn to_json(&self, rng: &mut Rng) -> J {
		let mut o = Vec::new();
		if let Lay::Bool(b) = self {
			return J::Bool(*b);
		}
		put(&mut o, "type", J::str(self.type_name()));
		self.header().unwrap().put(&mut o, rng);
		let opt_pat = |o: &mut Obj, k: &str, p: &Option<Pat>| {
			if let Some(p) = p {
				put(o, k, p.to_json())
			}
		};
		let opt_str = |o: &mut Obj, k: &str, p: &Option<String>| {
			if let Some(p) = p {
				put(o, k, J::str(p.clone()))
			}
		};
		match self {
			Lay::Bool(_) => unreachable!(),
			Lay::Unit(_, c) => {
				if let Some(c) = c {
					put(&mut o, "const", c.clone())
				}
			}
			Lay::Boolean(_, r, d) => {
				opt_pat(&mut o, "resource", r);
				opt_str(&mut o, "datatype", d);
			}
			Lay::Number(_, r, d) | Lay::Bytes(_, r, d) => {
				opt_pat(&mut o, "resource", r);
				put(&mut o, "datatype", J::str(d.clone()));
			}
			Lay::Str(_, r, d, p) => {
				opt_pat(&mut o, "resource", r);
				opt_str(&mut o, "datatype", d);
				opt_str(&mut o, "pattern", p);
			}
			Lay::Id(_, r, p) => {
				opt_pat(&mut o, "resource", r);
				opt_str(&mut o, "pattern", p);
			}
			Lay::Record(_, fields) => {
				if !fields.is_empty() || rng.pct(50) {
					put(
						&mut o,
						"fields",
						J::Obj(
							fields
								.iter()
								.map(|(k, f)| (k.clone(), f.to_json(rng)))
								.collect(),
						),
					)
				}
			}
			Lay::Sum(_, variants) => put(
				&mut o,
				"variants",
				J::Obj(
					variants
						.iter()
						.map(|(k, f)| (k.clone(), f.to_json(rng)))
						.collect(),
				),
			),
			Lay::Set(_, item) => put(&mut o, "item", item.to_json(rng)),
			Lay::Tuple(_, items) => put(
				&mut o,
				"items",
				J::Arr(items.iter().map(|i| i.to_json(rng)).collect()),
			),
			Lay::List(_, node, head, tail) => {
				put(
					&mut o,
					"node",
					match &**node {
						Node::Layout(l) => l.to_json(rng),
						Node::Node {
							head,
							rest,
							intro,
							fmt,
							dataset,
						} => {
							let mut n = Vec::new();
							opt_str(&mut n, "head", head);
							opt_str(&mut n, "rest", rest);
							if let Some(i) = intro {
								put(&mut n, "intro", strs(i, rng))
							}
							put(&mut n, "value", fmt.to_json(rng));
							if let Some(d) = dataset {
								put(&mut n, "dataset", quads(d))
							}
							J::Obj(n)
						}
					},
				);
				opt_pat(&mut o, "head", head);
				opt_pat(&mut o, "tail", tail);
			}
		}
		J::Obj(o)
	}

	/// Direct children layouts.
	pub fn children(&self) -> Vec<&LRef> {
		fn f(f: &Fmt) -> &LRef {
			match f {
				Fmt::Layout(l) => l,
				Fmt::Format(l, ..) => l,
			}
		}
		match self {
			Lay::Record(_, c) | Lay::Sum(_, c) => c.iter().map(|(_, c)| f(&c.fmt)).collect(),
			Lay::Set(_, c) => vec![f(&c.fmt)],
			Lay::Tuple(_, c) => c.iter().map(|c| f(&c.fmt)).collect(),
			Lay::List(_, n, ..) => match &**n {
				Node::Layout(l) => vec![l],
				Node::Node { fmt, .. } => vec![f(fmt)],
			},
			_ => vec![],
		}
	}
}
