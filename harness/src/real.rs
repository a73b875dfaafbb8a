//! Bridge between the reference model and the real TreeLDR library.
use crate::ast::*;
use crate::refc::*;
use crate::refde::DErr;
use crate::refhy::{Frag, HErr, RVal, Q};
use rdf_types::{dataset::BTreeDataset, Id, Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts as tl;
use treeldr_layouts::{
	layout::{DataLayout, LayoutType, ListLayout, LiteralLayout},
	Layout, Layouts, Pattern, Ref, TypedLiteral, TypedValue,
};

pub type LRefT = Ref<LayoutType, Term>;

/// Parses layouts (one JSON document each) with serde, and builds them.
pub fn build(docs: &[String]) -> Result<(Layouts, Vec<LRefT>), String> {
	let mut builder = tl::abs::Builder::new();
	let mut refs = Vec::new();
	for d in docs {
		let l: tl::abs::syntax::Layout =
			serde_json::from_str(d).map_err(|e| format!("parse: {e}"))?;
		refs.push(l.build(&mut builder).map_err(|e| format!("build: {e}"))?);
	}
	Ok((builder.build(), refs))
}

/// Resources occurring several times in the quad.
fn repeated(q: &Q) -> Vec<&Term> {
	let mut v = vec![&q.0, &q.1, &q.2];
	v.extend(&q.3);
	let mut r = Vec::new();
	for i in 0..v.len() {
		if v[..i].contains(&v[i]) {
			r.push(v[i])
		}
	}
	r
}

/// Removes the quads that `IndexedBTreeDataset` (a dependency) cannot index:
/// those where a resource occurs several times while it has not been inserted
/// before. Returns whether some quad has been removed.
pub fn settle(data: &mut Vec<Q>) -> bool {
	let known: std::collections::BTreeSet<Term> = data
		.iter()
		.filter(|q| repeated(q).is_empty())
		.flat_map(|q| [q.0.clone(), q.1.clone(), q.2.clone()].into_iter().chain(q.3.clone()))
		.collect();
	let n = data.len();
	data.retain(|q| repeated(q).into_iter().all(|t| known.contains(t)));
	data.len() != n
}

pub fn dataset(data: &[Q]) -> rdf_types::dataset::IndexedBTreeDataset {
	let (a, b): (Vec<&Q>, Vec<&Q>) = data.iter().partition(|q| repeated(q).is_empty());
	a.into_iter()
		.chain(b)
		.map(|q| Quad(q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone()))
		.collect()
}

pub fn quads(d: &BTreeDataset) -> Vec<Q> {
	let mut v: Vec<Q> = d
		.iter()
		.map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), q.3.cloned()))
		.collect();
	v.sort();
	v
}

pub fn pattern_matches(p: &Pattern<Term>, r: &RPat) -> bool {
	match (p, r) {
		(Pattern::Var(x), RPat::Var(y)) => *x as usize == *y,
		(Pattern::Resource(a), RPat::Term(b)) => a == b,
		_ => false,
	}
}

/// Correspondence between the reference layouts and the real ones.
#[derive(Default)]
pub struct KeyMap {
	pub map: BTreeMap<Key, Term>,
	pub diffs: Vec<String>,
	pub compared: u64,
}

fn rpat(p: &Pattern<Term>) -> RPat {
	match p {
		Pattern::Var(x) => RPat::Var(*x as usize),
		Pattern::Resource(t) => RPat::Term(t.clone()),
	}
}

/// Number extra properties may have any XSD integer type.
pub fn extra_matches(e: &Extra, t: &Term) -> bool {
	match e {
		Extra::Bool(b) => *t == lit(if *b { "true" } else { "false" }, &format!("{XSD}boolean")),
		Extra::Num(n) => match t {
			Term::Literal(l) => {
				let n_ = num_rational::BigRational::from_integer((*n).into());
				l.value == n.to_string()
					&& matches!(&l.type_, rdf_types::LiteralType::Any(t) if crate::refhy::in_value_space(&n_, t.as_str()) == Some(true))
			}
			_ => false,
		},
		Extra::Str(s) => *t == lit(s, &format!("{XSD}string")),
		Extra::Typed(v, ty) => *t == lit(v, ty),
	}
}

impl KeyMap {
	fn diff(&mut self, at: &str, s: impl AsRef<str>) {
		self.diffs.push(format!("{at}: {}", s.as_ref()))
	}

	fn dataset(&mut self, at: &str, d: &tl::Dataset<Term>, r: &BTreeSet<RQuad>) {
		let real: BTreeSet<RQuad> = d
			.iter()
			.map(|q| RQuad(rpat(q.0), rpat(q.1), rpat(q.2), q.3.map(rpat)))
			.collect();
		if real != *r {
			self.diff(at, format!("dataset is {real:?}, expected {r:?}"))
		}
	}

	fn head(
		&mut self,
		at: &str,
		input: u32,
		intro: u32,
		d: &tl::Dataset<Term>,
		extra: &BTreeMap<Term, Term>,
		r: &RHead,
	) {
		if input as usize != r.input {
			self.diff(at, format!("input count is {input}, expected {}", r.input))
		}
		if intro as usize != r.intro {
			self.diff(at, format!("intro count is {intro}, expected {}", r.intro))
		}
		self.dataset(at, d, &r.dataset);
		if extra.len() != r.extra.len()
			|| !r.extra.iter().all(|(k, v)| extra.get(&iri(k)).is_some_and(|t| extra_matches(v, t)))
		{
			self.diff(at, format!("extra properties are {extra:?}, expected {:?}", r.extra))
		}
	}

	#[allow(clippy::too_many_arguments)]
	fn comp(
		&mut self,
		at: &str,
		reg: &RReg,
		layouts: &Layouts,
		intro: u32,
		value: &tl::ValueFormat<Term>,
		d: &tl::Dataset<Term>,
		r: &RComp,
	) {
		if intro as usize != r.intro {
			self.diff(at, format!("intro count is {intro}, expected {}", r.intro))
		}
		self.dataset(at, d, &r.dataset);
		let input: Vec<RPat> = value.input.iter().map(rpat).collect();
		if input != r.fmt.input {
			self.diff(at, format!("value inputs are {input:?}, expected {:?}", r.fmt.input))
		}
		let graph = match &value.graph {
			None => RGraph::Keep,
			Some(None) => RGraph::Default,
			Some(Some(p)) => RGraph::Pat(rpat(p)),
		};
		if graph != r.fmt.graph {
			self.diff(at, format!("value graph is {graph:?}, expected {:?}", r.fmt.graph))
		}
		self.walk(at, reg, layouts, &r.fmt.layout, value.layout.id());
	}

	pub fn walk(&mut self, at: &str, reg: &RReg, layouts: &Layouts, key: &Key, id: &Term) {
		match self.map.get(key) {
			Some(t) => {
				if t != id {
					self.diff(at, format!("layout is {id}, expected {t}"))
				}
				return;
			}
			None => {
				if self.map.values().any(|t| t == id) {
					self.diff(at, format!("layout {id} stands for several layouts"));
					return;
				}
				self.map.insert(key.clone(), id.clone());
			}
		}
		match key {
			Key::Iri(i) => {
				if iri(i) != *id {
					self.diff(at, format!("layout reference is {id}, expected <{i}>"))
				}
			}
			Key::Anon(_) => {
				if !matches!(id, Term::Id(Id::Blank(_))) {
					self.diff(at, format!("layout reference is {id}, expected a blank node"))
				}
			}
		}
		let (real, r) = match (layouts.layout(id), reg.lays.get(key)) {
			(None, None) => return,
			(None, Some(_)) => return self.diff(at, format!("layout {id} is missing")),
			(Some(_), None) => return self.diff(at, format!("layout {id} should be undefined")),
			(Some(a), Some(b)) => (a, b),
		};
		self.compared += 1;
		let at = &format!("{at}/{}", r.name());
		match (real, r) {
			(Layout::Never, RLay::Never) | (Layout::Always, RLay::Always) => (),
			(
				Layout::Literal(l),
				RLay::Unit(..) | RLay::Lit { .. },
			) => self.literal(at, l, r),
			(Layout::Product(l), RLay::Record(h, fields)) => {
				self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, h);
				let a: Vec<_> = l.fields.keys().collect();
				let b: Vec<_> = fields.keys().collect();
				if a != b {
					return self.diff(at, format!("keys are {a:?}, expected {b:?}"));
				}
				for (k, f) in fields {
					let g = &l.fields[k];
					let at = &format!("{at}[{k}]");
					if g.required != f.required {
						self.diff(at, "required");
					}
					self.comp(at, reg, layouts, g.intro, &g.value, &g.dataset, f)
				}
			}
			(Layout::Sum(l), RLay::Sum(h, variants)) => {
				self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, h);
				let a: Vec<_> = l.variants.iter().map(|v| &v.name).collect();
				let b: Vec<_> = variants.iter().map(|v| &v.0).collect();
				if a != b {
					return self.diff(at, format!("variants are {a:?}, expected {b:?}"));
				}
				for ((k, f), g) in variants.iter().zip(&l.variants) {
					let at = &format!("{at}[{k}]");
					self.comp(at, reg, layouts, g.intro, &g.value, &g.dataset, f)
				}
			}
			(Layout::List(ListLayout::Unordered(l)), RLay::Set(h, c)) => {
				self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, h);
				self.comp(at, reg, layouts, l.item.intro, &l.item.value, &l.item.dataset, c)
			}
			(Layout::List(ListLayout::Sized(l)), RLay::Tuple(h, items)) => {
				self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, h);
				if l.items.len() != items.len() {
					return self.diff(at, format!("{} items, expected {}", l.items.len(), items.len()));
				}
				for (i, (g, f)) in l.items.iter().zip(items).enumerate() {
					let at = &format!("{at}[{i}]");
					self.comp(at, reg, layouts, g.intro, &g.value, &g.dataset, f)
				}
			}
			(
				Layout::List(ListLayout::Ordered(l)),
				RLay::List {
					head,
					node,
					first,
					tail,
				},
			) => {
				self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, head);
				if rpat(&l.head) != *first {
					self.diff(at, format!("head is {:?}, expected {first:?}", l.head))
				}
				if rpat(&l.tail) != *tail {
					self.diff(at, format!("tail is {:?}, expected {tail:?}", l.tail))
				}
				self.comp(at, reg, layouts, l.node.intro, &l.node.value, &l.node.dataset, node)
			}
			_ => self.diff(at, format!("layout {id} has another kind")),
		}
	}

	fn literal(&mut self, at: &str, l: &LiteralLayout<Term>, r: &RLay) {
		macro_rules! common {
			($l:expr, $k:ident, $r:expr) => {{
				if let RLay::Lit {
					head,
					kind,
					resource,
					datatype,
					..
				} = $r
				{
					if *kind != Kind::$k {
						return self.diff(at, "other kind of literal");
					}
					self.head(at, $l.input, $l.intro, &$l.dataset, &$l.extra_properties, head);
					if rpat(&$l.resource) != *resource {
						self.diff(at, format!("resource is {:?}, expected {resource:?}", $l.resource))
					}
					datatype
				} else {
					return self.diff(at, "other kind of literal");
				}
			}};
		}
		macro_rules! dt {
			($l:expr, $dt:expr) => {
				if $l.datatype != iri($dt) {
					self.diff(at, format!("datatype is {}, expected {}", $l.datatype, $dt))
				}
			};
		}
		macro_rules! pattern {
			($l:expr, $r:expr) => {
				if let RLay::Lit { pattern, .. } = $r {
					match (&$l.pattern, pattern) {
						(None, None) => (),
						(Some(a), Some((src, rx))) => {
							let mut rng = crate::rng::Rng::new(src.len() as u64);
							for w in crate::rx::words(rx, &mut rng, 12) {
								if a.contains(&w) != rx.matches(&w) {
									self.diff(
										at,
										format!("pattern {src:?} on {w:?}: {}", a.contains(&w)),
									)
								}
							}
						}
						_ => self.diff(at, "pattern presence"),
					}
				}
			};
		}
		match l {
			LiteralLayout::Data(DataLayout::Unit(l)) => match r {
				RLay::Unit(h, c) => {
					self.head(at, l.input, l.intro, &l.dataset, &l.extra_properties, h);
					if l.const_ != *c {
						self.diff(at, format!("constant is {:?}, expected {c:?}", l.const_))
					}
				}
				_ => self.diff(at, "other kind of literal"),
			},
			LiteralLayout::Data(DataLayout::Boolean(l)) => {
				let d = common!(l, Boolean, r);
				dt!(l, d)
			}
			LiteralLayout::Data(DataLayout::Number(l)) => {
				let d = common!(l, Number, r);
				dt!(l, d)
			}
			LiteralLayout::Data(DataLayout::ByteString(l)) => {
				let d = common!(l, Bytes, r);
				dt!(l, d)
			}
			LiteralLayout::Data(DataLayout::TextString(l)) => {
				let d = common!(l, Str, r);
				dt!(l, d);
				pattern!(l, r)
			}
			LiteralLayout::Id(l) => {
				common!(l, Id, r);
				pattern!(l, r)
			}
		}
	}
}

/// Compares a hydrated value to the expected one.
pub fn same_value(v: &TypedValue, r: &RVal, m: &BTreeMap<Key, Term>) -> bool {
	same_value_by(v, r, &|t, k| m.get(k) == Some(t))
}

/// Compares a hydrated value to the expected one, where `ty` compares layout
/// references.
pub fn same_value_by<R>(v: &TypedValue<R>, r: &RVal, ty: &dyn Fn(&R, &Key) -> bool) -> bool {
	match (v, r) {
		(TypedValue::Literal(l), r) => match (l, r) {
			(TypedLiteral::Unit(a, t), RVal::Unit(b, k)) => a == b && ty(t.id(), k),
			(TypedLiteral::Boolean(a, t), RVal::Boolean(b, k)) => a == b && ty(t.id(), k),
			(TypedLiteral::Number(a, t), RVal::Number(b, k)) => {
				a.as_big_rational() == b && ty(t.id(), k)
			}
			(TypedLiteral::ByteString(a, t), RVal::Bytes(b, k)) => a == b && ty(t.id(), k),
			(TypedLiteral::TextString(a, t), RVal::Text(b, k)) => a == b && ty(t.id(), k),
			(TypedLiteral::Id(a, t), RVal::Id(b, k)) => a == b && ty(t.id(), k),
			_ => false,
		},
		(TypedValue::Variant(v, t, i), RVal::Variant(r, k, j)) => {
			ty(t.id(), k) && *i as usize == *j && same_value_by(v, r, ty)
		}
		(TypedValue::Map(a, t), RVal::Map(b, k)) => {
			ty(t.id(), k)
				&& a.len() == b.len()
				&& a.iter()
					.all(|(k, v)| b.get(k).is_some_and(|r| same_value_by(v, r, ty)))
		}
		(TypedValue::List(a, t), RVal::List(b, k, unordered)) => {
			if !ty(t.id(), k) || a.len() != b.len() {
				return false;
			}
			if *unordered {
				let mut rest: Vec<&RVal> = b.iter().collect();
				a.iter().all(|v| {
					match rest.iter().position(|r| same_value_by(v, r, ty)) {
						Some(i) => {
							rest.swap_remove(i);
							true
						}
						None => false,
					}
				})
			} else {
				a.iter().zip(b).all(|(v, r)| same_value_by(v, r, ty))
			}
		}
		(TypedValue::Always(v), RVal::Always) => v.is_unit(),
		_ => false,
	}
}

/// Is the reported hydration error one of the justified ones?
pub fn justified_hy(
	e: &tl::distill::hy::Error,
	expected: &BTreeSet<HErr>,
	m: &BTreeMap<Key, Term>,
) -> bool {
	justified_hy_by(e, expected, &|t, k| m.get(k).is_none_or(|u| u == t), &|a, b| a == b)
}

pub fn justified_hy_by<R>(
	e: &tl::distill::hy::Error<R>,
	expected: &BTreeSet<HErr>,
	ty: &dyn Fn(&R, &Key) -> bool,
	same: &dyn Fn(&R, &Term) -> bool,
) -> bool {
	use tl::distill::hy::{DataFragment as F, Error as E};
	let frag = |f: &F<R>, g: &Frag| match (f, g) {
		(F::Discriminant(t), Frag::Discriminant(k)) => ty(t.id(), k),
		(
			F::Variant {
				layout,
				variant_name,
			},
			Frag::Variant(k, n),
		) => ty(layout.id(), k) && variant_name == n,
		(F::Key { layout, key }, Frag::Key(k, n)) => ty(layout.id(), k) && key == n,
		(F::OrderedListNode { layout, head, tail }, Frag::Node(k, h, t)) => {
			ty(layout.id(), k) && same(head, h) && same(tail, t)
		}
		(F::SizedListItem { layout, index }, Frag::Item(k, i)) => ty(layout.id(), k) && index == i,
		_ => false,
	};
	expected.iter().any(|x| match (e, x) {
		(E::IncompatibleLayout, HErr::Incompatible) => true,
		(E::InvalidInputCount { expected, found }, HErr::InputCount(a, b)) => {
			*expected as usize == *a && *found as usize == *b
		}
		(E::DataAmbiguity(f), HErr::Ambiguous(g)) => frag(f, g),
		(E::MissingData(f), HErr::Missing(g)) => frag(f, g),
		(E::UnknownNumberDatatype(i), HErr::UnknownNumber(j)) => i.as_str() == j,
		(E::NoMatchingLiteral, HErr::NoMatchingLiteral) => true,
		(E::LayoutNotFound(t), HErr::NotFound(k)) => ty(t.id(), k),
		_ => false,
	})
}

pub fn justified_de(
	e: &tl::distill::de::Error,
	expected: &BTreeSet<DErr>,
	m: &BTreeMap<Key, Term>,
) -> bool {
	justified_de_by(e, expected, &|t, k| m.get(k).is_none_or(|u| u == t))
}

pub fn justified_de_by<R>(
	e: &tl::distill::de::Error<R>,
	expected: &BTreeSet<DErr>,
	ty: &dyn Fn(&R, &Key) -> bool,
) -> bool {
	use tl::distill::de::Error as E;
	expected.iter().any(|x| match (e, x) {
		(E::IncompatibleLayout, DErr::Incompatible) => true,
		(E::InvalidInputCount { expected, found }, DErr::InputCount(a, b)) => {
			*expected as usize == *a && *found as usize == *b
		}
		(E::DataAmbiguity, DErr::Ambiguity) => true,
		(E::TermAmbiguity(_), DErr::TermAmbiguity) => true,
		(E::LayoutNotFound(t), DErr::NotFound(k)) => ty(t.id(), k),
		(E::MissingRequiredKey { layout, key, .. }, DErr::MissingKey(k, n)) => {
			ty(layout.id(), k) && key == n
		}
		_ => false,
	})
}

pub fn print_data(data: &[Q]) -> String {
	let mut out = String::new();
	for q in data {
		out.push_str(&format!("{} {} {}", q.0, q.1, q.2));
		if let Some(g) = &q.3 {
			out.push_str(&format!(" {g}"));
		}
		out.push_str(" .\n");
	}
	out
}
