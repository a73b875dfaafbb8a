//! Conversions under interpretations where resources have any number of terms.
use super::distill::{data, describe, scene, value_size, Scene};
use crate::gen::*;
use crate::real::*;
use crate::refc::*;
use crate::refde::{isomorphic, De, Out, RRes};
use crate::refhy::{HErr, Hy, Q};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::dataset::{BTreeDataset, IndexedBTreeDataset};
use rdf_types::interpretation::*;
use rdf_types::vocabulary::*;
use rdf_types::{Id, Interpretation, InterpretationMut, LiteralType, Quad, Term, VocabularyMut};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use treeldr_layouts as tl;
use treeldr_layouts::{layout::ListLayout, Layout, Layouts};

pub static PROPS: &[Prop] = &[Prop {
	id: "P06",
	rule: "random layouts, datasets and values under interpretations where resources have several terms, or none, or are shared by several terms; non trivial: the result has at least 2 nodes or quads, or an error; distinct by (layouts, interpretation, data or value)",
	quick: 50_000,
	thorough: 3_000_000,
	hang: 60,
	threads: 8,
	run: p06,
}];

/// Interpretation where several terms may denote the same resource.
#[derive(Default, Clone)]
pub struct Merged {
	pub names: Vec<BTreeSet<Term>>,
	pub by: HashMap<Term, usize>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct R(pub usize);

impl Merged {
	fn get(&mut self, t: Term) -> R {
		let n = self.names.len();
		let i = *self.by.entry(t.clone()).or_insert(n);
		if i == n {
			self.names.push([t].into());
		}
		R(i)
	}
}

impl Interpretation for Merged {
	type Resource = R;
}

impl InterpretationMut<()> for Merged {
	fn new_resource(&mut self, _: &mut ()) -> R {
		self.names.push(BTreeSet::new());
		R(self.names.len() - 1)
	}
}

impl IriInterpretation<iref::IriBuf> for Merged {
	fn iri_interpretation(&self, iri: &iref::IriBuf) -> Option<R> {
		self.by.get(&Term::iri(iri.clone())).copied().map(R)
	}
}

impl IriInterpretationMut<iref::IriBuf> for Merged {
	fn interpret_iri(&mut self, iri: iref::IriBuf) -> R {
		self.get(Term::iri(iri))
	}
}

impl LiteralInterpretation<rdf_types::Literal> for Merged {
	fn literal_interpretation(&self, l: &rdf_types::Literal) -> Option<R> {
		self.by.get(&Term::Literal(l.clone())).copied().map(R)
	}
}

impl LiteralInterpretationMut<rdf_types::Literal> for Merged {
	fn interpret_literal(&mut self, l: rdf_types::Literal) -> R {
		self.get(Term::Literal(l))
	}
}

impl ReverseIriInterpretation for Merged {
	type Iri = iref::IriBuf;
	type Iris<'a> = std::vec::IntoIter<&'a iref::IriBuf>;

	fn iris_of<'a>(&'a self, r: &'a R) -> Self::Iris<'a> {
		self.names[r.0].iter().filter_map(|t| match t {
			Term::Id(Id::Iri(i)) => Some(i),
			_ => None,
		}).collect::<Vec<_>>().into_iter()
	}
}

impl ReverseIriInterpretationMut for Merged {
	fn assign_iri(&mut self, r: &R, iri: iref::IriBuf) -> bool {
		self.names[r.0].insert(Term::iri(iri))
	}
}

impl ReverseLiteralInterpretation for Merged {
	type Literal = rdf_types::Literal;
	type Literals<'a> = std::vec::IntoIter<&'a rdf_types::Literal>;

	fn literals_of<'a>(&'a self, r: &'a R) -> Self::Literals<'a> {
		self.names[r.0].iter().filter_map(|t| match t {
			Term::Literal(l) => Some(l),
			_ => None,
		}).collect::<Vec<_>>().into_iter()
	}
}

impl ReverseLiteralInterpretationMut for Merged {
	fn assign_literal(&mut self, r: &R, l: rdf_types::Literal) -> bool {
		self.names[r.0].insert(Term::Literal(l))
	}
}

impl BlankIdInterpretation<rdf_types::BlankIdBuf> for Merged {
	fn blank_id_interpretation(&self, b: &rdf_types::BlankIdBuf) -> Option<R> {
		self.by.get(&Term::blank(b.clone())).copied().map(R)
	}
}

impl BlankIdInterpretationMut<rdf_types::BlankIdBuf> for Merged {
	fn interpret_blank_id(&mut self, b: rdf_types::BlankIdBuf) -> R {
		self.get(Term::blank(b))
	}
}

impl ReverseBlankIdInterpretation for Merged {
	type BlankId = rdf_types::BlankIdBuf;
	type BlankIds<'a> = std::vec::IntoIter<&'a rdf_types::BlankIdBuf>;

	fn blank_ids_of<'a>(&'a self, r: &'a R) -> Self::BlankIds<'a> {
		self.names[r.0].iter().filter_map(|t| match t {
			Term::Id(Id::Blank(b)) => Some(b),
			_ => None,
		}).collect::<Vec<_>>().into_iter()
	}
}

impl ReverseBlankIdInterpretationMut for Merged {
	fn assign_blank_id(&mut self, r: &R, b: rdf_types::BlankIdBuf) -> bool {
		self.names[r.0].insert(Term::blank(b))
	}
}

pub fn iri_of<V: VocabularyMut>(v: &mut V, i: &iref::Iri) -> V::Iri {
	v.insert(i)
}

pub fn literal_of<V: VocabularyMut>(v: &mut V, l: &rdf_types::Literal) -> V::Literal {
	let type_ = match &l.type_ {
		LiteralType::Any(t) => LiteralType::Any(v.insert(t)),
		LiteralType::LangString(t) => LiteralType::LangString(t.clone()),
	};
	v.insert_owned_literal(rdf_types::Literal::new(l.value.clone(), type_))
}

/// What the resources are called.
pub struct World {
	/// Groups of terms that denote the same resource (only for `Merged`).
	pub groups: Vec<BTreeSet<Term>>,
	pub canon: BTreeMap<Term, Term>,
	/// Additional names, by canonical term.
	pub extra: BTreeMap<Term, BTreeSet<Term>>,
}

impl World {
	pub fn canon(&self, t: &Term) -> Term {
		self.canon.get(t).unwrap_or(t).clone()
	}

	/// Names of the resources that are not just their own term.
	pub fn names(&self) -> BTreeMap<Term, BTreeSet<Term>> {
		let mut m: BTreeMap<Term, BTreeSet<Term>> = BTreeMap::new();
		for g in &self.groups {
			m.insert(self.canon(g.first().unwrap()), g.clone());
		}
		for (t, e) in &self.extra {
			m.entry(t.clone()).or_insert_with(|| [t.clone()].into()).extend(e.iter().cloned());
		}
		for v in m.values_mut() {
			v.retain(|t| !matches!(t, Term::Id(Id::Blank(_))));
		}
		for (t, c) in &self.canon {
			let names = m[c].clone();
			m.insert(t.clone(), names);
		}
		m
	}

	fn pat(&self, p: &mut RPat) {
		if let RPat::Term(t) = p {
			*t = self.canon(t)
		}
	}

	fn dataset(&self, d: &mut BTreeSet<RQuad>) {
		*d = std::mem::take(d)
			.into_iter()
			.map(|mut q| {
				self.pat(&mut q.0);
				self.pat(&mut q.1);
				self.pat(&mut q.2);
				if let Some(g) = &mut q.3 {
					self.pat(g)
				}
				q
			})
			.collect()
	}

	fn comp(&self, c: &mut RComp) {
		self.dataset(&mut c.dataset);
		c.fmt.input.iter_mut().for_each(|p| self.pat(p));
		if let RGraph::Pat(p) = &mut c.fmt.graph {
			self.pat(p)
		}
	}

	pub fn reg(&self, reg: &RReg) -> RReg {
		let mut reg = reg.clone();
		for l in reg.lays.values_mut() {
			match l {
				RLay::Never | RLay::Always => (),
				RLay::Unit(h, _) => self.dataset(&mut h.dataset),
				RLay::Lit { head, resource, .. } => {
					self.dataset(&mut head.dataset);
					self.pat(resource)
				}
				RLay::Record(h, f) => {
					self.dataset(&mut h.dataset);
					f.values_mut().for_each(|c| self.comp(c))
				}
				RLay::Sum(h, v) => {
					self.dataset(&mut h.dataset);
					v.iter_mut().for_each(|c| self.comp(&mut c.1))
				}
				RLay::Set(h, c) => {
					self.dataset(&mut h.dataset);
					self.comp(c)
				}
				RLay::Tuple(h, c) => {
					self.dataset(&mut h.dataset);
					c.iter_mut().for_each(|c| self.comp(c))
				}
				RLay::List { head, node, first, tail } => {
					self.dataset(&mut head.dataset);
					self.comp(node);
					self.pat(first);
					self.pat(tail);
				}
			}
		}
		reg
	}

	pub fn q(&self, q: &Q) -> Q {
		(self.canon(&q.0), self.canon(&q.1), self.canon(&q.2), q.3.as_ref().map(|g| self.canon(g)))
	}
}

/// Maps the reference layouts to the real ones.
fn types<T: Clone + Ord>(reg: &RReg, layouts: &Layouts<T>, key: &Key, id: &T, out: &mut BTreeMap<Key, T>) {
	if out.insert(key.clone(), id.clone()).is_some() {
		return;
	}
	let (Some(l), Some(r)) = (layouts.layout(id), reg.lays.get(key)) else {
		return;
	};
	let children: Vec<&T> = match l {
		Layout::Product(l) => l.fields.values().map(|f| f.value.layout.id()).collect(),
		Layout::Sum(l) => l.variants.iter().map(|f| f.value.layout.id()).collect(),
		Layout::List(ListLayout::Unordered(l)) => vec![l.item.value.layout.id()],
		Layout::List(ListLayout::Ordered(l)) => vec![l.node.value.layout.id()],
		Layout::List(ListLayout::Sized(l)) => l.items.iter().map(|i| i.value.layout.id()).collect(),
		_ => vec![],
	};
	for (c, id) in r.comps().into_iter().zip(children) {
		types(reg, layouts, &c.fmt.layout, id, out)
	}
}

/// All the terms of the layouts.
pub fn constants(reg: &RReg) -> BTreeSet<Term> {
	let mut out = passed(reg);
	out.extend(mentioned(reg));
	out
}

/// Constants out of the datasets.
pub fn passed(reg: &RReg) -> BTreeSet<Term> {
	let mut out = BTreeSet::new();
	let mut add = |p: &RPat| {
		if let RPat::Term(t) = p {
			out.insert(t.clone());
		}
	};
	for l in reg.lays.values() {
		match l {
			RLay::Lit { resource, .. } => add(resource),
			RLay::List { first, tail, .. } => {
				add(first);
				add(tail);
			}
			_ => (),
		}
		for c in l.comps() {
			c.fmt.input.iter().for_each(&mut add);
			if let RGraph::Pat(p) = &c.fmt.graph {
				add(p)
			}
		}
	}
	out
}

pub fn world(rng: &mut Rng, s: &Scene, data: &[Q], merge: bool) -> World {
	let mut terms: BTreeSet<Term> = data
		.iter()
		.flat_map(|q| [q.0.clone(), q.1.clone(), q.2.clone()].into_iter().chain(q.3.clone()))
		.collect();
	let objects: Vec<Term> = data.iter().map(|q| q.2.clone()).collect();
	terms.extend(constants(&s.reg));
	let mut datatypes: BTreeSet<Term> = BTreeSet::new();
	for l in s.reg.lays.values() {
		if let RLay::Lit { datatype, .. } = l {
			if !datatype.is_empty() {
				datatypes.insert(iri(datatype));
			}
		}
	}
	if rng.pct(30) {
		terms.extend(datatypes.iter().cloned());
	}
	for k in s.reg.lays.keys() {
		if let Key::Iri(i) = k {
			terms.remove(&iri(i));
		}
	}
	let terms: Vec<Term> = terms.into_iter().collect();
	let mut w = World {
		groups: Vec::new(),
		canon: BTreeMap::new(),
		extra: BTreeMap::new(),
	};
	if terms.is_empty() {
		return w;
	}
	if merge {
		for _ in 0..*rng.pick(&[0, 1, 1, 2, 3]) {
			let n = rng.range(2, 3);
			let g: BTreeSet<Term> = (0..n)
				.map(|_| match rng.below(6) {
					0 if !objects.is_empty() => rng.pick(&objects).clone(),
					1 => random_literal(rng),
					2 => iri(&format!("{XSD}{}", rng.pick(&["integer", "string", "hexBinary", "int", "boolean"]))),
					3 => iri(&format!("{EX}x{}", rng.below(3))),
					_ => rng.pick(&terms).clone(),
				})
				.filter(|t| !s.reg.lays.keys().any(|k| matches!(k, Key::Iri(i) if iri(i) == *t)))
				.collect();
			if g.len() < 2 || g.iter().any(|t| w.canon.contains_key(t)) {
				continue;
			}
			let first = g.first().unwrap().clone();
			for t in &g {
				w.canon.insert(t.clone(), first.clone());
			}
			w.groups.push(g);
		}
	}
	for _ in 0..*rng.pick(&[0, 1, 1, 2, 4]) {
		let t = if rng.pct(60) && !objects.is_empty() { rng.pick(&objects) } else { rng.pick(&terms) };
		let t = w.canon(t);
		let name = match rng.below(8) {
			0..=2 => random_literal(rng),
			3 => match &t {
				// another literal of the same type.
				Term::Literal(l) => {
					let mut l = l.clone();
					l.value = rng.pick(&["1", "a", "0", "abc", "true", "00FF", "-3"]).to_string();
					Term::Literal(l)
				}
				_ => random_literal(rng),
			},
			4 => lang("a", "fr"),
			_ => iri(&format!("{EX}x{}", rng.below(5))),
		};
		w.extra.entry(t).or_default().insert(name);
	}
	w
}

pub fn names_of<V, I>(v: &V, i: &I, r: &I::Resource) -> BTreeSet<Term>
where
	V: rdf_types::Vocabulary,
	I: Interpretation + ReverseIriInterpretation<Iri = V::Iri> + ReverseLiteralInterpretation<Literal = V::Literal>,
{
	let mut out: BTreeSet<Term> = i.iris_of(r).map(|i| Term::iri(v.iri(i).unwrap().to_owned())).collect();
	for l in i.literals_of(r) {
		let l = v.literal(l).unwrap();
		let type_ = match l.type_ {
			rdf_types::LiteralTypeRef::Any(t) => LiteralType::Any(v.iri(t).unwrap().to_owned()),
			rdf_types::LiteralTypeRef::LangString(t) => LiteralType::LangString(t.to_owned()),
		};
		out.insert(Term::Literal(rdf_types::Literal::new(l.value.to_owned(), type_)));
	}
	out
}

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) }
}

struct Run<'a, V, I: Interpretation> {
	s: &'a Scene,
	w: World,
	reg: RReg,
	v: V,
	i: I,
	layouts: Layouts<I::Resource>,
	root: tl::Ref<tl::layout::LayoutType, I::Resource>,
	types: BTreeMap<Key, I::Resource>,
	known: BTreeMap<Term, I::Resource>,
}

impl<'a, V, I> Run<'a, V, I>
where
	V: VocabularyMut,
	V::Iri: Clone + PartialEq,
	I: InterpretationMut<V>
		+ IriInterpretationMut<V::Iri>
		+ LiteralInterpretationMut<V::Literal>
		+ ReverseIriInterpretationMut<Iri = V::Iri>
		+ ReverseLiteralInterpretationMut<Literal = V::Literal>,
	I::Resource: Clone + Eq + Ord + std::fmt::Debug,
{
	fn new(s: &'a Scene, w: World, mut v: V, mut i: I, known: BTreeMap<Term, I::Resource>) -> Result<Self, Bad> {
		let mut builder = tl::abs::Builder::<I::Resource>::new();
		let mut root = None;
		for d in &s.docs {
			let l: tl::abs::syntax::Layout = serde_json::from_str(d).map_err(|e| e.to_string())?;
			let r = guard("building the layouts", || l.build_with_interpretation(&mut v, &mut i, &mut builder))?
				.map_err(|e| Bad::Violation(format!("valid layouts are rejected: {e}")))?;
			root = Some(r);
		}
		let layouts = builder.build();
		let root = root.unwrap();
		let mut m = BTreeMap::new();
		types(&s.reg, &layouts, &s.root, root.id(), &mut m);
		let mut run = Run {
			reg: w.reg(&s.reg),
			s,
			w,
			v,
			i,
			layouts,
			root,
			types: m,
			known,
		};
		for (k, id) in run.types.clone() {
			if let Key::Iri(k) = k {
				if run.resource(&iri(&k)) != id {
					bad!("the reference to <{k}> is another resource")
				}
			}
		}
		for t in constants(&s.reg) {
			run.resource(&t);
		}
		for l in s.reg.lays.values() {
			if let RLay::Lit { datatype, .. } = l {
				if !datatype.is_empty() {
					run.resource(&iri(datatype));
				}
			}
		}
		for (t, e) in std::mem::take(&mut run.w.extra) {
			let r = run.resource(&t);
			for e in &e {
				match e {
					Term::Id(Id::Iri(iri)) => {
						let iri = iri_of(&mut run.v, iri);
						run.i.assign_iri(&r, iri);
					}
					Term::Id(Id::Blank(_)) => unreachable!(),
					Term::Literal(l) => {
						let l = literal_of(&mut run.v, l);
						run.i.assign_literal(&r, l);
					}
				}
			}
			run.w.extra.insert(t, e);
		}
		Ok(run)
	}

	/// Resource of a term.
	fn resource(&mut self, t: &Term) -> I::Resource {
		let t = self.w.canon(t);
		if let Some(r) = self.known.get(&t) {
			return r.clone();
		}
		let r = match &t {
			Term::Id(Id::Iri(i)) => {
				let i = iri_of(&mut self.v, i);
				self.i.interpret_iri(i)
			}
			Term::Id(Id::Blank(_)) => self.i.new_resource(&mut self.v),
			Term::Literal(l) => {
				let l = literal_of(&mut self.v, l);
				self.i.interpret_literal(l)
			}
		};
		self.known.insert(t, r.clone());
		r
	}

	fn hydrate(&mut self, cov: &mut Cov, data: &[Q], graph: &Option<Term>, inputs: &[Term]) -> Case {
		let mut cdata: Vec<Q> = data.iter().map(|q| self.w.q(q)).collect();
		cdata.sort();
		cdata.dedup();
		if settle(&mut cdata) {
			return Err(Bad::Skip("quads that the dataset cannot index"));
		}
		let cgraph = graph.as_ref().map(|g| self.w.canon(g));
		let cinputs: Vec<Term> = inputs.iter().map(|t| self.w.canon(t)).collect();
		let mut hy = Hy::new(&self.reg, &cdata);
		hy.names = self.w.names();
		let expected = hy.run(&self.s.root, cgraph.as_ref(), &cinputs);
		if let Err(e) = &expected {
			if e.contains(&HErr::Budget) || e.contains(&HErr::Unspecified) {
				cov.hit("skipped: unspecified or reference budget");
				return Ok(());
			}
		}
		cov.hits(&hy.seen);
		let mut ds = IndexedBTreeDataset::new();
		let (a, b): (Vec<&Q>, Vec<&Q>) = cdata.iter().partition(|q| !repeats(q));
		for q in a.into_iter().chain(b) {
			ds.insert(Quad(
				self.resource(&q.0),
				self.resource(&q.1),
				self.resource(&q.2),
				q.3.as_ref().map(|g| self.resource(g)),
			));
		}
		let rgraph = cgraph.as_ref().map(|g| self.resource(g));
		let rinputs: Vec<_> = cinputs.iter().map(|t| self.resource(t)).collect();
		let real = guard("hydrate", || {
			tl::hydrate_with(&self.v, &self.i, &self.layouts, &ds, rgraph.as_ref(), &self.root, &rinputs)
		})?;
		cov.eval();
		let ty = |r: &I::Resource, k: &Key| self.types.get(k) == Some(r);
		let same = |r: &I::Resource, t: &Term| self.known.get(t) == Some(r);
		match (&real, &expected) {
			(Ok(v), Ok(r)) => {
				if !same_value_by(v, r, &ty) {
					bad!("hydrate returned {v:?}\nexpected {r:?}")
				}
				let v = v.clone().into_untyped();
				cov.hit("hydrated");
				if value_size(&v) >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}value: {v:?}"));
				}
			}
			(Err(e), Err(x)) => {
				let ty = |r: &I::Resource, k: &Key| self.types.get(k).is_none_or(|t| t == r);
				if !justified_hy_by(e, x, &ty, &same) {
					bad!("hydrate failed with {e:?}\nexpected one of {x:?}")
				}
				cov.hit("not hydrated");
				cov.observe(&cov.case.clone());
			}
			(Ok(v), Err(x)) => bad!("hydrate returned {v:?}\nexpected one of the errors {x:?}"),
			(Err(e), Ok(r)) => bad!("hydrate failed with {e:?}\nexpected {r:?}"),
		}
		Ok(())
	}

	fn dehydrate(&mut self, rng: &mut Rng, cov: &mut Cov) -> Case {
		let case = cov.case.clone();
		let mut vg = VGen {
			reg: &self.s.reg,
			noise: *rng.pick(&[0, 1, 1, 5, 20]),
			unique: 0,
			strict: false,
			fuel: 60,
		};
		let value = vg.value(rng, &self.s.root, 4);
		let n = self.s.reg.lays[&self.s.root].input_count().unwrap_or(1);
		let n = if rng.pct(2) { n + 1 } else { n };
		let reg = self.reg.clone();
		let mut de = De::new(&reg);
		de.names = self.w.names().into_iter().map(|(k, v)| (RRes::Term(k), v)).collect();
		let mut inputs = Vec::new();
		let mut reals = Vec::new();
		for j in 0..n {
			if rng.pct(20) {
				let t = if rng.pct(40) { random_literal(rng) } else { iri(&format!("{EX}n{}", rng.below(3))) };
				let t = self.w.canon(&t);
				reals.push(self.resource(&t));
				inputs.push(RRes::Term(t));
			} else {
				let r = self.i.new_resource(&mut self.v);
				if rng.pct(30) {
					let t = iri(&format!("{EX}i{j}"));
					let i = iri_of(&mut self.v, t.as_iri().unwrap());
					self.i.assign_iri(&r, i);
					de.names.insert(RRes::Input(j), [t].into());
				}
				reals.push(r);
				inputs.push(RRes::Input(j));
			}
		}
		let graph = match rng.below(4) {
			0 => Some(self.w.canon(&iri(&format!("{EX}g{}", rng.below(2))))),
			_ => None,
		};
		let rgraph = graph.as_ref().map(|g| self.resource(g));
		cov.case.push_str(&format!("value: {value:?}\ninputs: {inputs:?} {:?}\ngraph: {graph:?}\n", de.names));
		let mut out = Out::default();
		let expected = de.go(&self.s.root, &value, graph.map(RRes::Term).as_ref(), &inputs, &mut out, &[]);
		if let Err(e) = &expected {
			if e.contains(&crate::refde::DErr::Budget) {
				return Err(Bad::Skip("reference budget"));
			}
		}
		// the lists whose tail is named by the value.
		if out.choice || out.lossy {
			cov.hit("skipped: several terms may be assigned");
			cov.case = case;
			return Ok(());
		}
		let mut known: BTreeMap<I::Resource, RRes> =
			self.known.iter().map(|(k, v)| (v.clone(), RRes::Term(k.clone()))).collect();
		for (r, i) in reals.iter().zip(&inputs) {
			known.insert(r.clone(), i.clone());
		}
		let before: BTreeMap<I::Resource, BTreeSet<Term>> =
			known.keys().map(|r| (r.clone(), names_of(&self.v, &self.i, r))).collect();
		let mut ds = BTreeDataset::<I::Resource>::new();
		let real = guard("dehydrate", || {
			let mut rdf = tl::distill::RdfContextMut::new(&mut self.v, &mut self.i);
			tl::distill::dehydrate_with(&mut rdf, &self.layouts, &value, rgraph.as_ref(), &self.root, &reals, &mut ds)
		})?;
		cov.eval();
		match (&real, &expected) {
			(Ok(()), Ok(())) => {
				let (refq, realq) = outputs(&out, &|r| de.names(r), &known, &before, &ds, &self.v, &self.i);
				if !isomorphic(&refq, &realq, |t| matches!(t, Term::Id(Id::Blank(_)))) {
					bad!(
						"dehydrated to\n{}expected\n{}",
						print_data(&realq),
						print_data(&refq)
					)
				}
				cov.hit("dehydrated");
				if realq.len() >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}dataset:\n{}", print_data(&realq)));
				}
			}
			(Err(e), Err(x)) => {
				let ty = |r: &I::Resource, k: &Key| self.types.get(k).is_none_or(|t| t == r);
				if !justified_de_by(e, x, &ty) {
					bad!("dehydrate failed with {e:?}\nexpected one of {x:?}")
				}
				for (r, b) in &before {
					if names_of(&self.v, &self.i, r) != *b {
						bad!("a failed dehydration gave new terms to {:?}", known[r])
					}
				}
				cov.hit("not dehydrated");
				cov.observe(&cov.case.clone());
			}
			(Ok(()), Err(x)) => bad!("dehydrated\nexpected one of the errors {x:?}"),
			(Err(e), Ok(())) => bad!("dehydrate failed with {e:?}"),
		}
		cov.case = case;
		Ok(())
	}
}

/// The expected and the actual results of a dehydration, as datasets where the
/// terms given to the resources are quads.
pub fn outputs<V, I>(
	out: &Out,
	names: &dyn Fn(&RRes) -> Vec<Term>,
	known: &BTreeMap<I::Resource, RRes>,
	before: &BTreeMap<I::Resource, BTreeSet<Term>>,
	ds: &BTreeDataset<I::Resource>,
	v: &V,
	i: &I,
) -> (Vec<Q>, Vec<Q>)
where
	V: rdf_types::Vocabulary,
	I: Interpretation + ReverseIriInterpretation<Iri = V::Iri> + ReverseLiteralInterpretation<Literal = V::Literal>,
	I::Resource: Clone + Eq + Ord,
{
	let node = |r: &RRes| match r {
		RRes::Anon(i) => blank(&format!("a{i}")),
		r => lit(&format!("{r:?}"), &format!("{XSD}string")),
	};
	let name = iri("urn:name");
	let mut refq: BTreeSet<Q> = out
		.quads
		.iter()
		.map(|q| (node(&q.0), node(&q.1), node(&q.2), q.3.as_ref().map(node)))
		.collect();
	let named: BTreeMap<RRes, Vec<Term>> =
		out.assigned.keys().map(|r| (r.clone(), names(r))).collect();
	for (r, t) in &out.assigned {
		for t in t {
			if !named[r].contains(t) {
				refq.insert((node(r), name.clone(), t.clone(), None));
			}
		}
	}
	let mut anon: BTreeMap<I::Resource, Term> = BTreeMap::new();
	let mut realq: BTreeSet<Q> = BTreeSet::new();
	{
		let mut rnode = |r: &I::Resource| match known.get(r) {
			Some(r) => node(r),
			None => {
				let n = anon.len();
				anon.entry(r.clone()).or_insert_with(|| blank(&format!("r{n}"))).clone()
			}
		};
		for q in ds {
			realq.insert((rnode(q.0), rnode(q.1), rnode(q.2), q.3.map(&mut rnode)));
		}
	}
	for (r, n) in &anon {
		for t in names_of(v, i, r) {
			realq.insert((n.clone(), name.clone(), t, None));
		}
	}
	for (r, b) in before {
		for t in names_of(v, i, r) {
			if !b.contains(&t) {
				realq.insert((node(&known[r]), name.clone(), t, None));
			}
		}
	}
	// anonymous resources that are in no quad cannot be found.
	let used: BTreeSet<&RRes> = out
		.quads
		.iter()
		.flat_map(|q| [&q.0, &q.1, &q.2].into_iter().chain(&q.3))
		.collect();
	refq.retain(|q| {
		q.1 != name
			|| !matches!(&q.0, Term::Id(Id::Blank(_)))
			|| used.iter().any(|r| node(r) == q.0)
	});
	let refq: Vec<Q> = refq.into_iter().collect();
	let realq: Vec<Q> = realq.into_iter().collect();
	(refq, realq)
}

pub fn repeats(q: &Q) -> bool {
	let mut v = vec![&q.0, &q.1, &q.2];
	v.extend(&q.3);
	let n = v.len();
	v.sort();
	v.dedup();
	v.len() != n
}

fn p06(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let s = scene(rng, cov, false)?;
	let docs = cov.case.clone();
	for _ in 0..3 {
		cov.case = docs.clone();
		let fit = rng.pct(75);
		let Some((data, graph, inputs)) = data(rng, &s, fit) else {
			continue;
		};
		describe(cov, &data, &graph, &inputs);
		let merge = rng.pct(50);
		let w = world(rng, &s, &data, merge);
		for g in &w.groups {
			cov.case.push_str(&format!("same: {}\n", g.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")));
			cov.hit("merged terms");
		}
		for (t, e) in &w.extra {
			cov.case.push_str(&format!("{t} is also: {}\n", e.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")));
			cov.hit("additional terms");
		}
		if merge {
			let mut m = Merged::default();
			for g in &w.groups {
				let i = m.names.len();
				m.names.push(g.iter().filter(|t| !matches!(t, Term::Id(Id::Blank(_)))).cloned().collect());
				for t in g {
					m.by.insert(t.clone(), i);
				}
			}
			let known = w.groups.iter().enumerate().map(|(i, g)| (g.first().unwrap().clone(), R(i))).collect();
			let mut run = Run::new(&s, w, (), m, known)?;
			run.hydrate(cov, &data, &graph, &inputs)?;
			run.dehydrate(rng, cov)?;
		} else {
			let mut run = Run::new(&s, w, IndexVocabulary::<IriIndex, BlankIdIndex>::new(), Indexed::new(), BTreeMap::new())?;
			run.hydrate(cov, &data, &graph, &inputs)?;
			run.dehydrate(rng, cov)?;
		}
	}
	Ok(())
}
