//! Reference hydration (RDF dataset to tree value).
use crate::refc::*;
use crate::rx::Rx;
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{LiteralType, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{value::Number, Literal, Value};

pub type Q = (Term, Term, Term, Option<Term>);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Frag {
	Discriminant(Key),
	Variant(Key, String),
	Key(Key, Value),
	Node(Key, Term, Term),
	Item(Key, usize),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum HErr {
	Incompatible,
	InputCount(usize, usize),
	Ambiguous(Frag),
	Missing(Frag),
	UnknownNumber(String),
	NoMatchingLiteral,
	NotFound(Key),
	/// The reference gave up (too much work): no verdict.
	Budget,
	/// The specification does not say (dependency quirk): no verdict.
	Unspecified,
}

#[derive(Debug, Clone, PartialEq)]
pub enum RVal {
	Unit(Value, Key),
	Boolean(bool, Key),
	Number(BigRational, Key),
	Bytes(Vec<u8>, Key),
	Text(String, Key),
	Id(String, Key),
	Variant(Box<RVal>, Key, usize),
	Map(BTreeMap<Value, RVal>, Key),
	/// Items, and `true` if they are unordered.
	List(Vec<RVal>, Key, bool),
	Always,
}

impl RVal {
	pub fn untyped(&self) -> Value {
		match self {
			RVal::Unit(v, _) => v.clone(),
			RVal::Boolean(b, _) => Value::Literal(Literal::Boolean(*b)),
			RVal::Number(n, _) => Value::Literal(Literal::Number(Number::new(n.clone()))),
			RVal::Bytes(b, _) => Value::Literal(Literal::ByteString(b.clone())),
			RVal::Text(s, _) | RVal::Id(s, _) => Value::Literal(Literal::TextString(s.clone())),
			RVal::Variant(v, _, _) => v.untyped(),
			RVal::Map(m, _) => {
				Value::Map(m.iter().map(|(k, v)| (k.clone(), v.untyped())).collect())
			}
			RVal::List(l, _, _) => Value::List(l.iter().map(RVal::untyped).collect()),
			RVal::Always => Value::Literal(Literal::Unit),
		}
	}
}

pub type Res<T> = Result<T, BTreeSet<HErr>>;

fn one(e: HErr) -> BTreeSet<HErr> {
	[e].into_iter().collect()
}

pub type Subst = Vec<Option<Term>>;

fn unify(p: &RPat, t: &Term, s: &mut Subst) -> bool {
	match p {
		RPat::Term(u) => u == t,
		RPat::Var(x) => match &s[*x] {
			Some(u) => u == t,
			None => {
				s[*x] = Some(t.clone());
				true
			}
		},
	}
}

/// All the substitutions extending `s` under which all the patterns are quads
/// of the dataset.
pub fn match_all(
	data: &[Q],
	s: &Subst,
	patterns: &[RQuad],
	graph: Option<&Term>,
	budget: &mut u64,
) -> Option<BTreeSet<Subst>> {
	let mut cur: BTreeSet<Subst> = [s.clone()].into_iter().collect();
	for p in patterns {
		let mut next = BTreeSet::new();
		for s in &cur {
			for q in data {
				if *budget == 0 {
					return None;
				}
				*budget -= 1;
				let mut t = s.clone();
				let g_ok = match (&p.3, &q.3) {
					(None, g) => g.as_ref() == graph,
					(Some(_), None) => false,
					(Some(gp), Some(g)) => unify(gp, g, &mut t),
				};
				if g_ok
					&& unify(&p.0, &q.0, &mut t)
					&& unify(&p.1, &q.1, &mut t)
					&& unify(&p.2, &q.2, &mut t)
				{
					next.insert(t);
				}
			}
		}
		cur = next;
	}
	Some(cur)
}

pub struct Hy<'a> {
	/// Terms of the resources that have other terms than themselves.
	pub names: BTreeMap<Term, BTreeSet<Term>>,
	pub reg: &'a RReg,
	pub data: &'a [Q],
	pub budget: u64,
	/// What the monitor observed: counts of reference decisions.
	pub seen: BTreeMap<&'static str, u64>,
}

struct Frame<'a> {
	key: &'a Key,
	graph: Option<&'a Term>,
	inputs: &'a [Term],
}

pub const DECIMALS: &[&str] = &[
	"decimal",
	"integer",
	"nonPositiveInteger",
	"negativeInteger",
	"long",
	"int",
	"short",
	"byte",
	"nonNegativeInteger",
	"unsignedLong",
	"unsignedInt",
	"unsignedShort",
	"unsignedByte",
	"positiveInteger",
];

/// Is `n` in the value space of the XSD datatype?
/// `None` if this is not a decimal datatype.
pub fn in_value_space(n: &BigRational, datatype: &str) -> Option<bool> {
	let name = datatype.strip_prefix(XSD)?;
	if !DECIMALS.contains(&name) {
		return None;
	}
	if name == "decimal" {
		// finite decimal expansions only.
		let mut d = n.denom().clone();
		for p in [2, 5] {
			let p = BigInt::from(p);
			while (&d % &p) == BigInt::from(0) {
				d /= &p;
			}
		}
		return Some(d == BigInt::from(1));
	}
	if !n.is_integer() {
		return Some(false);
	}
	let i = n.to_integer();
	let big = |x: i128| BigInt::from(x);
	let (min, max) = match name {
		"integer" => (None, None),
		"nonPositiveInteger" => (None, Some(big(0))),
		"negativeInteger" => (None, Some(big(-1))),
		"nonNegativeInteger" => (Some(big(0)), None),
		"positiveInteger" => (Some(big(1)), None),
		"long" => (Some(big(i64::MIN as i128)), Some(big(i64::MAX as i128))),
		"int" => (Some(big(i32::MIN as i128)), Some(big(i32::MAX as i128))),
		"short" => (Some(big(i16::MIN as i128)), Some(big(i16::MAX as i128))),
		"byte" => (Some(big(i8::MIN as i128)), Some(big(i8::MAX as i128))),
		"unsignedLong" => (Some(big(0)), Some(big(u64::MAX as i128))),
		"unsignedInt" => (Some(big(0)), Some(big(u32::MAX as i128))),
		"unsignedShort" => (Some(big(0)), Some(big(u16::MAX as i128))),
		"unsignedByte" => (Some(big(0)), Some(big(u8::MAX as i128))),
		_ => unreachable!(),
	};
	Some(min.is_none_or(|m| m <= i) && max.is_none_or(|m| i <= m))
}

pub fn hex(s: &str) -> Option<Vec<u8>> {
	if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
		return None;
	}
	Some(
		(0..s.len() / 2)
			.map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
			.collect(),
	)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64_encode(b: &[u8]) -> String {
	let mut out = String::new();
	for c in b.chunks(3) {
		let n = (c[0] as u32) << 16
			| (*c.get(1).unwrap_or(&0) as u32) << 8
			| *c.get(2).unwrap_or(&0) as u32;
		for i in 0..4 {
			if i <= c.len() {
				out.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char)
			} else {
				out.push('=')
			}
		}
	}
	out
}

/// Decodes canonical base64. `Err(false)` is surely invalid, `Err(true)` is
/// unspecified (white spaces, missing padding, trailing bits).
fn b64_decode(s: &str) -> Result<Vec<u8>, bool> {
	let b = s.as_bytes();
	if b.len() % 4 != 0 || !b.iter().all(|c| B64.contains(c) || *c == b'=') {
		return Err(true);
	}
	let mut out = Vec::new();
	for c in b.chunks(4) {
		let pad = c.iter().filter(|c| **c == b'=').count();
		let mut n = 0u32;
		for x in c {
			n = n << 6 | B64.iter().position(|y| y == x).unwrap_or(0) as u32;
		}
		let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
		out.extend(&bytes[..3 - pad.min(2)]);
	}
	if b64_encode(&out) == s {
		Ok(out)
	} else {
		Err(true)
	}
}

/// Is this string in the lexical space of xsd:decimal (no exponent)?
pub fn is_decimal_lexical(s: &str) -> bool {
	let m = s.strip_prefix(['+', '-']).unwrap_or(s);
	let (a, b) = m.split_once('.').unwrap_or((m, ""));
	(!a.is_empty() || !b.is_empty())
		&& a.bytes().all(|c| c.is_ascii_digit())
		&& b.bytes().all(|c| c.is_ascii_digit())
}

impl<'a> Hy<'a> {
	pub fn new(reg: &'a RReg, data: &'a [Q]) -> Self {
		Self {
			reg,
			data,
			budget: 400_000,
			seen: BTreeMap::new(),
			names: BTreeMap::new(),
		}
	}

	fn see(&mut self, s: &'static str) {
		*self.seen.entry(s).or_default() += 1;
	}

	pub fn run(&mut self, key: &Key, graph: Option<&Term>, inputs: &[Term]) -> Res<RVal> {
		self.go(key, graph, inputs, &[])
	}

	fn matches(
		&mut self,
		s: &Subst,
		d: &BTreeSet<RQuad>,
		graph: Option<&Term>,
	) -> Res<Vec<Subst>> {
		// most constrained patterns first, to bound the work.
		let mut rest: Vec<RQuad> = d.iter().cloned().collect();
		let mut order = Vec::new();
		let mut bound: BTreeSet<usize> = (0..s.len()).filter(|i| s[*i].is_some()).collect();
		while !rest.is_empty() {
			let score = |q: &RQuad| {
				[Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()]
					.into_iter()
					.flatten()
					.filter(|p| matches!(p, RPat::Var(x) if !bound.contains(x)))
					.count()
			};
			let i = (0..rest.len()).min_by_key(|i| score(&rest[*i])).unwrap();
			let q = rest.remove(i);
			for p in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()]
				.into_iter()
				.flatten()
			{
				if let RPat::Var(x) = p {
					bound.insert(*x);
				}
			}
			order.push(q);
		}
		match match_all(self.data, s, &order, graph, &mut self.budget) {
			Some(r) => {
				if r.len() > 3000 {
					return Err(one(HErr::Budget));
				}
				Ok(r.into_iter().collect())
			}
			None => Err(one(HErr::Budget)),
		}
	}

	fn unique(
		&mut self,
		s: &Subst,
		d: &BTreeSet<RQuad>,
		graph: Option<&Term>,
		f: impl Fn() -> Frag,
	) -> Res<Option<Subst>> {
		let mut m = self.matches(s, d, graph)?;
		match m.len() {
			0 => Ok(None),
			1 => Ok(m.pop()),
			_ => {
				self.see("ambiguous match");
				Err(one(HErr::Ambiguous(f())))
			}
		}
	}

	fn resource(&self, p: &RPat, s: &Subst, key: &Key) -> Res<Term> {
		match p {
			RPat::Term(t) => Ok(t.clone()),
			RPat::Var(x) => s[*x]
				.clone()
				.ok_or_else(|| one(HErr::Ambiguous(Frag::Discriminant(key.clone())))),
		}
	}

	fn format<'b>(
		&mut self,
		f: &RFmt,
		s: &Subst,
		graph: Option<&Term>,
		key: &Key,
		stack: &[Frame<'b>],
	) -> Res<RVal> {
		let (inputs, g) = self.select(f, s, graph, key)?;
		self.go(&f.layout, g.as_ref(), &inputs, stack)
	}

	fn select(
		&mut self,
		f: &RFmt,
		s: &Subst,
		graph: Option<&Term>,
		key: &Key,
	) -> Res<(Vec<Term>, Option<Term>)> {
		let inputs = f
			.input
			.iter()
			.map(|p| self.resource(p, s, key))
			.collect::<Result<Vec<_>, _>>()?;
		let g = match &f.graph {
			RGraph::Keep => graph.cloned(),
			RGraph::Default => None,
			RGraph::Pat(p) => Some(self.resource(p, s, key)?),
		};
		Ok((inputs, g))
	}

	/// Terms of a resource.
	pub fn names(&self, r: &Term) -> Vec<Term> {
		match self.names.get(r) {
			Some(s) => s.iter().cloned().collect(),
			None => vec![r.clone()],
		}
	}

	fn literal(&mut self, key: &Key, kind: Kind, r: &Term, datatype: &str, pattern: Option<&Rx>) -> Res<RVal> {
		let none = || Err(one(HErr::NoMatchingLiteral));
		let ambiguous = || one(HErr::Ambiguous(Frag::Discriminant(key.clone())));
		let pat_ok = |v: &str| pattern.is_none_or(|rx| rx.matches(v));
		let names = self.names(r);
		if kind == Kind::Id {
			let iris: Vec<_> = names
				.iter()
				.filter_map(|t| match t {
					Term::Id(rdf_types::Id::Iri(i)) if pat_ok(i.as_str()) => Some(i.to_string()),
					_ => None,
				})
				.collect();
			return match iris.len() {
				0 => none(),
				1 => Ok(RVal::Id(iris[0].clone(), key.clone())),
				_ => {
					self.see("several identifiers");
					Err(ambiguous())
				}
			};
		}
		let datatypes = self.names(&iri(datatype));
		let mut values = Vec::new();
		let mut errs = BTreeSet::new();
		for t in &names {
			if let Term::Literal(l) = t {
				if let LiteralType::Any(ty) = &l.type_ {
					if datatypes.contains(&Term::iri(ty.clone())) && (kind != Kind::Str || pat_ok(&l.value)) {
						match Self::literal_value(key, kind, &l.value, ty.as_str()) {
							Ok(v) => values.push(v),
							Err(e) => errs.extend(e),
						}
					}
				}
			}
		}
		match (values.len(), errs.is_empty()) {
			(0, true) => none(),
			(0, false) => Err(errs),
			(1, true) => Ok(values.pop().unwrap()),
			(1, false) => Err(one(HErr::Unspecified)),
			_ => {
				self.see("several literals");
				if values.windows(2).all(|w| w[0] == w[1]) {
					// the same value several times.
					errs.insert(HErr::Unspecified);
				}
				errs.extend(ambiguous());
				Err(errs)
			}
		}
	}

	fn literal_value(key: &Key, kind: Kind, v: &str, datatype: &str) -> Res<RVal> {
		let none = || Err(one(HErr::NoMatchingLiteral));
		let k = key.clone();
		match kind {
			Kind::Id => unreachable!(),
			Kind::Boolean => {
				if datatype != format!("{XSD}boolean") {
					return none();
				}
				match v {
					"true" | "1" => Ok(RVal::Boolean(true, k)),
					"false" | "0" => Ok(RVal::Boolean(false, k)),
					_ => none(),
				}
			}
			Kind::Str => Ok(RVal::Text(v.to_string(), k)),
			Kind::Bytes => {
				if datatype == format!("{XSD}hexBinary") {
					match hex(v) {
						Some(b) => Ok(RVal::Bytes(b, k)),
						None => none(),
					}
				} else if datatype == format!("{XSD}base64Binary") {
					match b64_decode(v) {
						Ok(b) => Ok(RVal::Bytes(b, k)),
						Err(false) => none(),
						Err(true) => Err(one(HErr::Unspecified)),
					}
				} else {
					none()
				}
			}
			Kind::Number => {
				match datatype.strip_prefix(XSD) {
					Some(n) if DECIMALS.contains(&n) => (),
					_ => return Err(one(HErr::UnknownNumber(datatype.to_string()))),
				}
				if !is_decimal_lexical(v) {
					return none();
				}
				if v.contains('.') && !datatype.ends_with("decimal") {
					let n = parse_decimal(v).unwrap();
					if n.is_integer() {
						// "1.0"^^xsd:integer
						return Err(one(HErr::Unspecified));
					}
				}
				let n = parse_decimal(v).unwrap();
				if in_value_space(&n, datatype) == Some(true) {
					Ok(RVal::Number(n, k))
				} else {
					none()
				}
			}
		}
	}

	fn go(
		&mut self,
		key: &Key,
		graph: Option<&Term>,
		inputs: &[Term],
		stack: &[Frame],
	) -> Res<RVal> {
		if self.budget < 50 {
			return Err(one(HErr::Budget));
		}
		self.budget -= 50;
		let Some(lay) = self.reg.lays.get(key) else {
			self.see("layout not found");
			return Err(one(HErr::NotFound(key.clone())));
		};
		if let Some(n) = lay.input_count() {
			if n != inputs.len() {
				self.see("bad input count");
				return Err(one(HErr::InputCount(n, inputs.len())));
			}
		}
		if stack
			.iter()
			.any(|f| f.key == key && f.graph == graph && f.inputs == inputs)
		{
			self.see("cyclic data");
			return Err(one(HErr::Incompatible));
		}
		let mut stack: Vec<Frame> = stack
			.iter()
			.map(|f| Frame {
				key: f.key,
				graph: f.graph,
				inputs: f.inputs,
			})
			.collect();
		if stack.len() > 60 {
			return Err(one(HErr::Budget));
		}
		stack.push(Frame { key, graph, inputs });
		self.see(lay.name());

		let head = match lay {
			RLay::Never => return Err(one(HErr::Incompatible)),
			RLay::Always => return Ok(RVal::Always),
			other => other.head().unwrap(),
		};
		let mut s: Subst = inputs.iter().cloned().map(Some).collect();
		s.extend((0..head.intro).map(|_| None));
		let s = self
			.unique(&s, &head.dataset, graph, || Frag::Discriminant(key.clone()))?
			.ok_or_else(|| one(HErr::Missing(Frag::Discriminant(key.clone()))))?;
		let ext = |n: usize| {
			let mut t = s.clone();
			t.extend((0..n).map(|_| None));
			t
		};
		let mut errs = BTreeSet::new();
		match lay {
			RLay::Never | RLay::Always => unreachable!(),
			RLay::Unit(_, c) => Ok(RVal::Unit(c.clone(), key.clone())),
			RLay::Lit {
				kind,
				resource,
				datatype,
				pattern,
				..
			} => {
				let r = self.resource(resource, &s, key)?;
				self.literal(key, *kind, &r, datatype, pattern.as_ref().map(|(_, rx)| rx))
			}
			RLay::Record(_, fields) => {
				let mut out = BTreeMap::new();
				for (name, f) in fields {
					let r = self
						.unique(&ext(f.intro), &f.dataset, graph, || {
							Frag::Key(key.clone(), name.clone())
						})
						.and_then(|m| match m {
							Some(s) => self.format(&f.fmt, &s, graph, key, &stack).map(Some),
							None if f.required => {
								self.see("missing required field");
								Err(one(HErr::Missing(Frag::Key(key.clone(), name.clone()))))
							}
							None => {
								self.see("absent optional field");
								Ok(None)
							}
						});
					match r {
						Ok(Some(v)) => {
							out.insert(name.clone(), v);
						}
						Ok(None) => (),
						Err(e) => errs.extend(e),
					}
				}
				if errs.is_empty() {
					Ok(RVal::Map(out, key.clone()))
				} else {
					Err(errs)
				}
			}
			RLay::Sum(_, variants) => {
				let mut ok: Vec<(usize, RVal)> = Vec::new();
				for (i, (name, f)) in variants.iter().enumerate() {
					let m = self.unique(&ext(f.intro), &f.dataset, graph, || {
						Frag::Variant(key.clone(), name.clone())
					});
					match m {
						Err(e) => errs.extend(e),
						Ok(None) => (),
						Ok(Some(s)) => match self.select(&f.fmt, &s, graph, key) {
							Err(e) => errs.extend(e),
							Ok((inputs, g)) => {
								match self.go(&f.fmt.layout, g.as_ref(), &inputs, &stack) {
									Ok(v) => ok.push((i, v)),
									Err(e)
										if e.contains(&HErr::Budget)
											|| e.contains(&HErr::Unspecified) =>
									{
										errs.extend(e)
									}
									Err(_) => self.see("variant rejected"),
								}
							}
						},
					}
				}
				if ok.len() > 1 {
					self.see("several variants");
					for (i, _) in &ok {
						errs.insert(HErr::Ambiguous(Frag::Variant(
							key.clone(),
							variants[*i].0.clone(),
						)));
					}
				}
				if !errs.is_empty() {
					return Err(errs);
				}
				match ok.pop() {
					Some((i, v)) => {
						self.see("variant selected");
						Ok(RVal::Variant(Box::new(v), key.clone(), i))
					}
					None => {
						self.see("no variant");
						Err(one(HErr::Incompatible))
					}
				}
			}
			RLay::Set(_, f) => {
				let m = self.matches(&ext(f.intro), &f.dataset, graph)?;
				if m.len() > 1 {
					self.see("set of several items");
				}
				let mut out = Vec::new();
				for s in m {
					match self.format(&f.fmt, &s, graph, key, &stack) {
						Ok(v) => out.push(v),
						Err(e) => errs.extend(e),
					}
				}
				if errs.is_empty() {
					Ok(RVal::List(out, key.clone(), true))
				} else {
					Err(errs)
				}
			}
			RLay::Tuple(_, items) => {
				let mut out = Vec::new();
				for (i, f) in items.iter().enumerate() {
					let r = self
						.unique(&ext(f.intro), &f.dataset, graph, || {
							Frag::Item(key.clone(), i)
						})
						.and_then(|m| match m {
							Some(s) => self.format(&f.fmt, &s, graph, key, &stack),
							None => Err(one(HErr::Missing(Frag::Item(key.clone(), i)))),
						});
					match r {
						Ok(v) => out.push(v),
						Err(e) => errs.extend(e),
					}
				}
				if errs.is_empty() {
					Ok(RVal::List(out, key.clone(), false))
				} else {
					Err(errs)
				}
			}
			RLay::List {
				node, first, tail, ..
			} => {
				let mut cur = self.resource(first, &s, key)?;
				let tail = self.resource(tail, &s, key)?;
				let mut out = Vec::new();
				let mut seen = BTreeSet::new();
				while cur != tail {
					if !seen.insert(cur.clone()) {
						self.see("cyclic list");
						errs.insert(HErr::Incompatible);
						break;
					}
					let mut t = s.clone();
					t.push(Some(cur.clone()));
					t.push(None);
					t.extend((0..node.intro).map(|_| None));
					let frag = || Frag::Node(key.clone(), cur.clone(), tail.clone());
					let m = match self.unique(&t, &node.dataset, graph, frag) {
						Ok(Some(m)) => m,
						Ok(None) => {
							errs.insert(HErr::Missing(frag()));
							break;
						}
						Err(e) => {
							errs.extend(e);
							break;
						}
					};
					match self.format(&node.fmt, &m, graph, key, &stack) {
						Ok(v) => out.push(v),
						Err(e) => errs.extend(e),
					}
					match self.resource(&RPat::Var(s.len() + 1), &m, key) {
						Ok(r) => cur = r,
						Err(e) => {
							errs.extend(e);
							break;
						}
					}
				}
				if errs.is_empty() {
					if out.len() > 1 {
						self.see("list of several items");
					}
					Ok(RVal::List(out, key.clone(), false))
				} else {
					Err(errs)
				}
			}
		}
	}
}
