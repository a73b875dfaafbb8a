//! Reference dehydration (tree value to RDF dataset).
use crate::refc::*;
use crate::refhy::{b64_encode, in_value_space, Q};
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{Id, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{Literal, Value};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum RRes {
	Input(usize),
	Anon(usize),
	Term(Term),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum DErr {
	Incompatible,
	InputCount(usize, usize),
	Ambiguity,
	TermAmbiguity,
	NotFound(Key),
	MissingKey(Key, Value),
	Budget,
}

pub type RQ = (RRes, RRes, RRes, Option<RRes>);

#[derive(Debug, Clone, Default)]
pub struct Out {
	pub quads: BTreeSet<RQ>,
	pub assigned: BTreeMap<RRes, BTreeSet<Term>>,
	/// A round trip back to the value may not be expected, because the head of
	/// an empty list cannot be identified with its tail.
	pub lossy: bool,
	/// Several terms could have been assigned.
	pub choice: bool,
}

pub struct De<'a> {
	pub reg: &'a RReg,
	/// Terms of the resources that have other terms than themselves.
	pub names: BTreeMap<RRes, BTreeSet<Term>>,
	pub anon: usize,
	pub budget: u64,
	pub seen: BTreeMap<&'static str, u64>,
}

type Res = Result<(), BTreeSet<DErr>>;

fn one(e: DErr) -> BTreeSet<DErr> {
	[e].into_iter().collect()
}

/// Canonical decimal lexical form of `n` (with a finite expansion).
pub fn decimal_lexical(n: &BigRational) -> String {
	let neg = n < &BigRational::from_integer(BigInt::from(0));
	let mut num = if neg { -n.numer() } else { n.numer().clone() };
	let mut den = n.denom().clone();
	let ten = BigInt::from(10);
	let mut scale = 0usize;
	while &num % &den != BigInt::from(0) {
		num *= &ten;
		scale += 1;
	}
	num /= &den;
	den = BigInt::from(1);
	let _ = den;
	let mut digits = num.to_string();
	while digits.len() <= scale {
		digits.insert(0, '0');
	}
	let (a, b) = digits.split_at(digits.len() - scale);
	let mut out = String::new();
	if neg {
		out.push('-');
	}
	out.push_str(a);
	if scale > 0 {
		out.push('.');
		out.push_str(b);
	}
	out
}

/// A value of a given variant of a sum (only for the derived conversions).
pub fn tagged(name: &str, v: Value) -> Value {
	let key = Value::Literal(Literal::TextString(format!("\u{1}{name}")));
	Value::Map([(key, v)].into())
}

fn chosen(m: &BTreeMap<Value, Value>) -> Option<(&str, &Value)> {
	match m.iter().next() {
		Some((Value::Literal(Literal::TextString(s)), v)) if m.len() == 1 => Some((s.strip_prefix('\u{1}')?, v)),
		_ => None,
	}
}

impl<'a> De<'a> {
	pub fn new(reg: &'a RReg) -> Self {
		Self {
			reg,
			names: BTreeMap::new(),
			anon: 0,
			budget: 20_000,
			seen: BTreeMap::new(),
		}
	}

	fn see(&mut self, s: &'static str) {
		*self.seen.entry(s).or_default() += 1;
	}

	pub fn names(&self, r: &RRes) -> Vec<Term> {
		match (self.names.get(r), r) {
			(Some(s), _) => s.iter().cloned().collect(),
			(None, RRes::Term(t)) => vec![t.clone()],
			_ => vec![],
		}
	}

	fn iris(&self, r: &RRes) -> Vec<Term> {
		let mut v = self.names(r);
		v.retain(|t| matches!(t, Term::Id(Id::Iri(_))));
		v
	}

	fn fresh(&mut self) -> RRes {
		let r = RRes::Anon(self.anon);
		self.anon += 1;
		r
	}

	fn pat(p: &RPat, env: &[RRes]) -> RRes {
		match p {
			RPat::Var(x) => env[*x].clone(),
			RPat::Term(t) => RRes::Term(t.clone()),
		}
	}

	fn quads(d: &BTreeSet<RQuad>, env: &[RRes], graph: Option<&RRes>, out: &mut Out) {
		for q in d {
			out.quads.insert((
				Self::pat(&q.0, env),
				Self::pat(&q.1, env),
				Self::pat(&q.2, env),
				match &q.3 {
					Some(g) => Some(Self::pat(g, env)),
					None => graph.cloned(),
				},
			));
		}
	}

	fn comp(
		&mut self,
		c: &RComp,
		env: &[RRes],
		value: &Value,
		graph: Option<&RRes>,
		out: &mut Out,
		sums: &[&Key],
	) -> Res {
		let mut env = env.to_vec();
		for _ in 0..c.intro {
			env.push(self.fresh());
		}
		Self::quads(&c.dataset, &env, graph, out);
		let inputs: Vec<_> = c.fmt.input.iter().map(|p| Self::pat(p, &env)).collect();
		let g = match &c.fmt.graph {
			RGraph::Keep => graph.cloned(),
			RGraph::Default => None,
			RGraph::Pat(p) => Some(Self::pat(p, &env)),
		};
		self.go(&c.fmt.layout, value, g.as_ref(), &inputs, out, sums)
	}

	#[allow(clippy::too_many_arguments)]
	pub fn go(
		&mut self,
		key: &Key,
		value: &Value,
		graph: Option<&RRes>,
		inputs: &[RRes],
		out: &mut Out,
		sums: &[&Key],
	) -> Res {
		if self.budget == 0 {
			return Err(one(DErr::Budget));
		}
		self.budget -= 1;
		let reg = self.reg;
		let Some((key, lay)) = reg.lays.get_key_value(key) else {
			self.see("layout not found");
			return Err(one(DErr::NotFound(key.clone())));
		};
		if let Some(n) = lay.input_count() {
			if n != inputs.len() {
				self.see("bad input count");
				return Err(one(DErr::InputCount(n, inputs.len())));
			}
		}
		self.see(lay.name());
		let head = match lay {
			RLay::Never => return Err(one(DErr::Incompatible)),
			RLay::Always => return Ok(()),
			l => l.head().unwrap(),
		};
		let mut env = inputs.to_vec();
		for _ in 0..head.intro {
			env.push(self.fresh());
		}
		Self::quads(&head.dataset, &env, graph, out);
		let bad = Err(one(DErr::Incompatible));
		let mut errs = BTreeSet::new();
		match (lay, value) {
			(RLay::Unit(_, c), v) if v == c => Ok(()),
			(
				RLay::Lit {
					kind,
					resource,
					datatype,
					pattern,
					..
				},
				Value::Literal(l),
			) => {
				let pat_ok = |v: &str| pattern.as_ref().is_none_or(|(_, rx)| rx.matches(v));
				let mut terms: Vec<Term> = match (kind, l) {
					(Kind::Id, Literal::TextString(s)) if pat_ok(s) && iref::Iri::new(s).is_ok() => vec![iri(s)],
					(Kind::Id, _) => vec![],
					_ => self
						.iris(&RRes::Term(iri(datatype)))
						.into_iter()
						.filter_map(|t| {
							let datatype = t.as_iri().unwrap().as_str();
							Some(match (kind, l) {
								(Kind::Boolean, Literal::Boolean(b)) if datatype == format!("{XSD}boolean") => {
									lit(if *b { "true" } else { "false" }, datatype)
								}
								(Kind::Number, Literal::Number(n))
									if in_value_space(n.as_big_rational(), datatype) == Some(true) =>
								{
									lit(&decimal_lexical(n.as_big_rational()), datatype)
								}
								(Kind::Bytes, Literal::ByteString(b)) if datatype == format!("{XSD}hexBinary") => {
									let s: String = b.iter().map(|b| format!("{b:02X}")).collect();
									lit(&s, datatype)
								}
								(Kind::Bytes, Literal::ByteString(b)) if datatype == format!("{XSD}base64Binary") => {
									lit(&b64_encode(b), datatype)
								}
								(Kind::Str, Literal::TextString(s)) if pat_ok(s) => lit(s, datatype),
								_ => return None,
							})
						})
						.collect(),
				};
				out.choice |= terms.len() > 1;
				let Some(term) = terms.pop() else {
					self.see("literal rejected");
					return bad;
				};
				let r = Self::pat(resource, &env);
				out.assigned.entry(r).or_default().insert(term);
				Ok(())
			}
			(RLay::Record(_, fields), Value::Map(m)) => {
				for (k, v) in m {
					match fields.get(k) {
						Some(f) => {
							if let Err(e) = self.comp(f, &env, v, graph, out, &[]) {
								errs.extend(e)
							}
						}
						None => {
							self.see("unknown key");
							errs.insert(DErr::Incompatible);
						}
					}
				}
				for (k, f) in fields {
					if !m.contains_key(k) {
						if f.required {
							self.see("missing required key");
							errs.insert(DErr::MissingKey(key.clone(), k.clone()));
						} else {
							self.see("missing optional key");
						}
					}
				}
				if errs.is_empty() {
					Ok(())
				} else {
					Err(errs)
				}
			}
			(RLay::Sum(_, variants), Value::Map(m)) if chosen(m).is_some() => {
				let (name, v) = chosen(m).unwrap();
				match variants.iter().find(|(n, _)| n == name) {
					Some((_, c)) => self.comp(c, &env, v, graph, out, &[]),
					None => bad,
				}
			}
			(RLay::Sum(_, variants), v) => {
				if sums.contains(&key) {
					return bad;
				}
				let mut sums = sums.to_vec();
				sums.push(key);
				let mut ok = Vec::new();
				for (_, c) in variants {
					let mut o = Out::default();
					match self.comp(c, &env, v, graph, &mut o, &sums) {
						Ok(()) => ok.push(o),
						Err(e) if e.contains(&DErr::Budget) => return Err(e),
						Err(_) => self.see("variant rejected"),
					}
				}
				match ok.len() {
					0 => {
						self.see("no variant");
						bad
					}
					1 => {
						self.see("variant selected");
						let o = ok.pop().unwrap();
						out.quads.extend(o.quads);
						out.lossy |= o.lossy;
						out.choice |= o.choice;
						for (k, v) in o.assigned {
							out.assigned.entry(k).or_default().extend(v)
						}
						Ok(())
					}
					_ => {
						self.see("several variants");
						Err(one(DErr::Ambiguity))
					}
				}
			}
			(RLay::Set(_, c), Value::List(l)) => {
				for v in l {
					if let Err(e) = self.comp(c, &env, v, graph, out, &[]) {
						errs.extend(e)
					}
				}
				if errs.is_empty() {
					Ok(())
				} else {
					Err(errs)
				}
			}
			(RLay::Tuple(_, items), Value::List(l)) => {
				if items.len() != l.len() {
					self.see("bad tuple length");
					errs.insert(DErr::Incompatible);
				}
				for (c, v) in items.iter().zip(l) {
					if let Err(e) = self.comp(c, &env, v, graph, out, &[]) {
						errs.extend(e)
					}
				}
				if errs.is_empty() {
					Ok(())
				} else {
					Err(errs)
				}
			}
			(
				RLay::List {
					node, first, tail, ..
				},
				Value::List(l),
			) => {
				let mut cur = Self::pat(first, &env);
				let tail = Self::pat(tail, &env);
				if l.is_empty() && cur != tail {
					self.see("empty list");
					let iris = self.iris(&tail);
					out.lossy |= iris.is_empty();
					if !iris.is_empty() {
						out.assigned.entry(cur).or_default().extend(iris);
					}
					return Ok(());
				}
				for (i, v) in l.iter().enumerate() {
					let rest = if i + 1 == l.len() {
						tail.clone()
					} else {
						self.fresh()
					};
					let mut e = env.clone();
					e.push(cur);
					e.push(rest.clone());
					if let Err(e) = self.comp(node, &e, v, graph, out, &[]) {
						errs.extend(e)
					}
					cur = rest;
				}
				if errs.is_empty() {
					Ok(())
				} else {
					Err(errs)
				}
			}
			_ => {
				self.see("wrong kind of value");
				bad
			}
		}
	}
}

/// Result of the reference dehydration, where anonymous resources are left
/// unnamed.
pub struct Dehydrated {
	pub quads: BTreeSet<(RT, RT, RT, Option<RT>)>,
	pub subjects: Vec<RT>,
	pub lossy: bool,
	pub anon_used: usize,
}

/// Term or anonymous (fresh blank node).
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum RT {
	Term(Term),
	Anon(usize),
	/// Input without term.
	Input(usize),
}

pub fn dehydrate(
	reg: &RReg,
	key: &Key,
	value: &Value,
	default_inputs: usize,
	seen: &mut BTreeMap<&'static str, u64>,
) -> Result<Dehydrated, BTreeSet<DErr>> {
	let mut de = De::new(reg);
	let Some(lay) = reg.lays.get(key) else {
		return Err(one(DErr::NotFound(key.clone())));
	};
	let n = lay.input_count().unwrap_or(default_inputs);
	let inputs: Vec<_> = (0..n).map(RRes::Input).collect();
	let mut out = Out::default();
	let r = de.go(key, value, None, &inputs, &mut out, &[]);
	for (k, v) in de.seen {
		*seen.entry(k).or_default() += v;
	}
	r?;
	let mut map: BTreeMap<RRes, Term> = BTreeMap::new();
	for (r, mut terms) in out.assigned {
		if let RRes::Term(t) = &r {
			terms.insert(t.clone());
		}
		if terms.len() > 1 {
			*seen.entry("term ambiguity").or_default() += 1;
			return Err(one(DErr::TermAmbiguity));
		}
		map.insert(r, terms.pop_first().unwrap());
	}
	let conv = |r: &RRes| match map.get(r) {
		Some(t) => RT::Term(t.clone()),
		None => match r {
			RRes::Term(t) => RT::Term(t.clone()),
			RRes::Anon(i) => RT::Anon(*i),
			RRes::Input(i) => RT::Input(*i),
		},
	};
	let quads: BTreeSet<_> = out
		.quads
		.iter()
		.map(|q| {
			(
				conv(&q.0),
				conv(&q.1),
				conv(&q.2),
				q.3.as_ref().map(conv),
			)
		})
		.collect();
	Ok(Dehydrated {
		quads,
		subjects: inputs.iter().map(conv).collect(),
		lossy: out.lossy,
		anon_used: de.anon,
	})
}

impl Dehydrated {
	/// Names anonymous resources and inputs.
	pub fn ground(&self, anon: impl Fn(usize) -> Term, input: impl Fn(usize) -> Term) -> (Vec<Q>, Vec<Term>) {
		let f = |r: &RT| match r {
			RT::Term(t) => t.clone(),
			RT::Anon(i) => anon(*i),
			RT::Input(i) => input(*i),
		};
		let mut quads: Vec<Q> = self
			.quads
			.iter()
			.map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f)))
			.collect();
		quads.sort();
		quads.dedup();
		(quads, self.subjects.iter().map(f).collect())
	}
}

/// Checks that `real` is the same dataset as `reference` up to the choice of
/// the blank nodes standing for the anonymous resources.
pub fn isomorphic(reference: &[Q], real: &[Q], is_anon: impl Fn(&Term) -> bool) -> bool {
	if reference.len() != real.len() {
		return false;
	}
	// Color refinement on both sides, with the anonymous nodes as variables.
	fn nodes(q: &Q) -> Vec<&Term> {
		let mut v = vec![&q.0, &q.1, &q.2];
		if let Some(g) = &q.3 {
			v.push(g);
		}
		v
	}
	let anon = |d: &[Q]| -> BTreeSet<Term> {
		d.iter()
			.flat_map(nodes)
			.filter(|t| is_anon(t))
			.cloned()
			.collect()
	};
	let (aa, bb) = (anon(reference), anon(real));
	if aa.len() != bb.len() {
		return false;
	}
	type Colors = BTreeMap<Term, String>;
	fn h(s: &str) -> String {
		use std::hash::{Hash, Hasher};
		let mut x = std::collections::hash_map::DefaultHasher::new();
		s.hash(&mut x);
		format!("{:016x}", x.finish())
	}
	let refine = |d: &[Q], c: &mut Colors, rounds: usize| {
		for _ in 0..rounds {
			let mut next: BTreeMap<Term, Vec<String>> = BTreeMap::new();
			for q in d {
				let ns = nodes(q);
				for t in &ns {
					if let Some(own) = c.get(*t) {
						let sig: Vec<String> = ns
							.iter()
							.map(|u| {
								let me = if u == t { "@" } else { "" };
								match c.get(*u) {
									Some(x) => format!("{me}?{x}"),
									None => format!("{u}"),
								}
							})
							.collect();
						let _ = own;
						next.entry((*t).clone()).or_default().push(sig.join(" "));
					}
				}
			}
			let mut new = Colors::new();
			for (t, own) in c.iter() {
				let mut v = next.remove(t).unwrap_or_default();
				v.sort();
				new.insert(t.clone(), h(&format!("{own} {}", v.join("|"))));
			}
			*c = new;
		}
	};
	fn search(
		a: &[Q],
		b: &BTreeSet<Q>,
		bv: &[Q],
		ca: &Colors,
		cb: &Colors,
		refine: &dyn Fn(&[Q], &mut Colors, usize),
		fuel: &mut u32,
	) -> bool {
		if *fuel == 0 {
			return true; // give up: no verdict.
		}
		*fuel -= 1;
		let classes = |c: &Colors| {
			let mut m: BTreeMap<String, Vec<Term>> = BTreeMap::new();
			for (t, x) in c {
				m.entry(x.clone()).or_default().push(t.clone());
			}
			m
		};
		let (ka, kb) = (classes(ca), classes(cb));
		if ka.len() != kb.len()
			|| ka
				.iter()
				.any(|(x, v)| kb.get(x).map(Vec::len) != Some(v.len()))
		{
			return false;
		}
		match ka.iter().find(|(_, v)| v.len() > 1) {
			None => {
				let map: BTreeMap<&Term, &Term> =
					ka.iter().map(|(x, v)| (&v[0], &kb[x][0])).collect();
				let f = |t: &Term| map.get(t).map(|t| (*t).clone()).unwrap_or(t.clone());
				a.iter()
					.all(|q| b.contains(&(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))))
			}
			Some((x, v)) => {
				let mut ca2 = ca.clone();
				ca2.insert(v[0].clone(), h(&format!("pick {x}")));
				refine(a, &mut ca2, 3);
				for cand in &kb[x] {
					let mut cb2 = cb.clone();
					cb2.insert(cand.clone(), h(&format!("pick {x}")));
					refine(bv, &mut cb2, 3);
					if search(a, b, bv, &ca2, &cb2, refine, fuel) {
						return true;
					}
				}
				false
			}
		}
	}
	let mut ca: Colors = aa.into_iter().map(|t| (t, String::new())).collect();
	let mut cb: Colors = bb.into_iter().map(|t| (t, String::new())).collect();
	refine(reference, &mut ca, 4);
	refine(real, &mut cb, 4);
	let set: BTreeSet<Q> = real.iter().cloned().collect();
	let mut fuel = 500;
	search(reference, &set, real, &ca, &cb, &refine, &mut fuel)
}
