//! Derived conversions against the reference model.
use crate::ast::*;
use crate::gen::*;
use crate::props::distill::{data_of, describe, scene_of, value_size, Scene};
use crate::props::interp::*;
use crate::real::*;
use crate::refc::*;
use crate::refde::{isomorphic, tagged, DErr, De, Out, RRes};
use crate::refhy::{HErr, Hy, Q, RVal};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::dataset::{BTreeDataset, IndexedBTreeDataset};
use rdf_types::interpretation::*;
use rdf_types::vocabulary::*;
use rdf_types::{Id, Interpretation, InterpretationMut, Quad, Term, VocabularyMut};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};
use treeldr_layouts::{Literal, Value};

pub type VI = IndexVocabulary<IriIndex, BlankIdIndex>;

/// A type with derived conversions.
pub trait Tv: Sized {
	/// The value it stands for, where the variants are tagged and the items of
	/// unordered lists are sorted.
	fn to_value(&self) -> Value;
	fn gen(rng: &mut Rng, depth: usize) -> Self;
}

impl Tv for String {
	fn to_value(&self) -> Value {
		text(self.clone())
	}
	fn gen(rng: &mut Rng, _: usize) -> Self {
		rng.pick(&["", "a", "abc", "é\n\"", "true", "1", "x y", "-3"]).to_string()
	}
}

macro_rules! ints {
	($($t:ident)*) => {
		$(impl Tv for $t {
			fn to_value(&self) -> Value {
				num(num_rational::BigRational::from_integer((*self).into()))
			}
			fn gen(rng: &mut Rng, _: usize) -> Self {
				match rng.below(6) {
					0 => $t::MIN,
					1 => $t::MAX,
					2 => 0,
					3 => $t::MAX / 2 + 1,
					_ => rng.below(100) as $t,
				}
			}
		})*
	}
}

ints!(i8 i16 i32 i64 u8 u16 u32 u64);

impl Tv for Id {
	fn to_value(&self) -> Value {
		text(self.to_string())
	}
	fn gen(rng: &mut Rng, _: usize) -> Self {
		Id::Iri(iref::IriBuf::new(format!("{EX}i{}", rng.below(5))).unwrap())
	}
}

pub struct Hex(Vec<u8>);

impl std::fmt::Display for Hex {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		self.0.iter().try_for_each(|b| write!(f, "{b:02X}"))
	}
}

impl treeldr::de::FromRdfLiteral for Hex {
	fn from_rdf_literal(s: &str) -> Result<Self, treeldr::de::InvalidLiteral> {
		crate::refhy::hex(s).map(Hex).ok_or_else(|| treeldr::de::InvalidLiteral(s.to_owned()))
	}
}

impl Tv for Hex {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::ByteString(self.0.clone()))
	}
	fn gen(rng: &mut Rng, _: usize) -> Self {
		Hex((0..rng.below(4)).map(|_| rng.below(256) as u8).collect())
	}
}

pub fn bag(mut items: Vec<Value>) -> Value {
	items.sort();
	Value::List(items)
}

type DeOf<V, I> = fn(
	&V,
	&I,
	&IndexedBTreeDataset<<I as Interpretation>::Resource>,
	Option<&<I as Interpretation>::Resource>,
	&[<I as Interpretation>::Resource],
) -> Result<Value, treeldr::DeserializeError>;

type SerOf<V, I> = fn(
	&dyn Any,
	&mut V,
	&mut I,
	&[<I as Interpretation>::Resource],
	Option<&<I as Interpretation>::Resource>,
	&mut BTreeDataset<<I as Interpretation>::Resource>,
) -> Result<(), treeldr::SerializeError>;

pub struct Ops {
	pub gen: fn(&mut Rng) -> Box<dyn Any>,
	pub value: fn(&dyn Any) -> Value,
	pub de: (DeOf<(), Merged>, DeOf<VI, Indexed>),
	pub ser: (SerOf<(), Merged>, SerOf<VI, Indexed>),
}

pub fn de<T: Tv + DeserializeLd<N, V, I>, const N: usize, V, I>(
	v: &V,
	i: &I,
	ds: &IndexedBTreeDataset<I::Resource>,
	graph: Option<&I::Resource>,
	inputs: &[I::Resource],
) -> Result<Value, treeldr::DeserializeError>
where
	V: rdf_types::Vocabulary,
	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
	I::Resource: Clone + Ord,
{
	let inputs: [I::Resource; N] = inputs.to_vec().try_into().ok().expect("input count");
	T::deserialize_ld_with(RdfContext::new(v, i), ds, graph, &inputs).map(|t| t.to_value())
}

pub fn ser<T: Tv + SerializeLd<N, V, I> + 'static, const N: usize, V, I>(
	t: &dyn Any,
	v: &mut V,
	i: &mut I,
	inputs: &[I::Resource],
	graph: Option<&I::Resource>,
	out: &mut BTreeDataset<I::Resource>,
) -> Result<(), treeldr::SerializeError>
where
	V: VocabularyMut,
	I: InterpretationMut<V>
		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
	I::Resource: Clone + Ord,
{
	let inputs: [I::Resource; N] = inputs.to_vec().try_into().ok().expect("input count");
	let t: &T = t.downcast_ref().unwrap();
	t.serialize_ld_with(&mut RdfContextMut::new(v, i), &inputs, graph, out)
}

#[macro_export]
macro_rules! ops {
	($t:ident, $n:literal) => {
		$crate::derive::Ops {
			gen: |rng| Box::new(<$t as $crate::derive::Tv>::gen(rng, 0)),
			value: |t| t.downcast_ref::<$t>().unwrap().to_value(),
			de: ($crate::derive::de::<$t, $n, (), $crate::props::interp::Merged>, $crate::derive::de::<$t, $n, VI, rdf_types::interpretation::Indexed>),
			ser: ($crate::derive::ser::<$t, $n, (), $crate::props::interp::Merged>, $crate::derive::ser::<$t, $n, VI, rdf_types::interpretation::Indexed>),
		}
	};
}

pub struct Entry {
	pub name: &'static str,
	pub inputs: usize,
	pub deps: &'static [&'static str],
	/// Declaration of the type.
	pub decl: &'static str,
	/// The layout it stands for.
	pub lay: fn() -> Lay,
	pub ops: Ops,
}

pub use crate::types::ENTRIES;

pub static PROPS: &[Prop] = &[Prop {
	id: "P17",
	rule: "107 types with derived conversions (all kinds, nested, recursive, several inputs, graphs) on random datasets and values, under interpretations where resources have several terms, or none; non trivial: the value has at least 2 nodes, or at least 2 quads are emitted, or the data is rejected; distinct by (type, interpretation, data or value)",
	quick: 150_000,
	thorough: 3_000_000,
	hang: 60,
	threads: 8,
	run: p17,
}];

fn native(name: &str) -> Lay {
	let h = Header {
		id: Some(format!("{EX}{name}")),
		..Header::default()
	};
	let ty = match name {
		"String" => return Lay::Str(h, None, None, None),
		"i8" => "byte",
		"i16" => "short",
		"i32" => "int",
		"i64" => "long",
		"u8" => "unsignedByte",
		"u16" => "unsignedShort",
		"u32" => "unsignedInt",
		"u64" => "unsignedLong",
		_ => panic!("no type {name}"),
	};
	Lay::Number(h, None, format!("{XSD}{ty}"))
}

/// The layouts of a type and of the types it refers to.
fn layouts_of(name: &str, seen: &mut BTreeSet<String>, out: &mut Vec<Lay>) {
	if !seen.insert(name.to_string()) {
		return;
	}
	match ENTRIES.iter().find(|e| e.name == name) {
		Some(e) => {
			for d in e.deps {
				layouts_of(d, seen, out)
			}
			out.push((e.lay)())
		}
		None => out.push(native(name)),
	}
}

/// The value, where the variants are tagged and the unordered lists sorted.
fn shape(v: &RVal, reg: &RReg) -> Value {
	match v {
		RVal::Variant(v, k, i) => match &reg.lays[k] {
			RLay::Sum(_, variants) => tagged(&variants[*i].0, shape(v, reg)),
			_ => unreachable!(),
		},
		RVal::Map(m, _) => Value::Map(m.iter().map(|(k, v)| (k.clone(), shape(v, reg))).collect()),
		RVal::List(l, _, unordered) => {
			let l = l.iter().map(|v| shape(v, reg)).collect();
			if *unordered {
				bag(l)
			} else {
				Value::List(l)
			}
		}
		v => v.untyped(),
	}
}

/// Is there a number that no machine integer can hold?
fn too_large(v: &RVal) -> bool {
	match v {
		RVal::Number(n, _) => {
			let max = num_rational::BigRational::from_integer(i64::MAX.into());
			*n > max || *n < -max
		}
		RVal::Variant(v, ..) => too_large(v),
		RVal::Map(m, _) => m.values().any(too_large),
		RVal::List(l, ..) => l.iter().any(too_large),
		_ => false,
	}
}

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) }
}

struct Run<'a, V, I: Interpretation> {
	s: &'a Scene,
	e: &'static Entry,
	w: World,
	reg: RReg,
	v: V,
	i: I,
	known: BTreeMap<Term, I::Resource>,
	de: DeOf<V, I>,
	ser: SerOf<V, I>,
}

impl<V, I> Run<'_, V, I>
where
	V: VocabularyMut,
	I: InterpretationMut<V>
		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
	I::Resource: Clone + Ord + std::fmt::Debug,
{
	fn new(&mut self, constants_first: bool) {
		if constants_first {
			self.constants()
		}
		// There must be a resource to be passed to the components.
		for t in passed(&self.s.reg) {
			self.resource(&t);
		}
		let extra = std::mem::take(&mut self.w.extra);
		for (t, e) in &extra {
			let r = self.resource(t);
			for e in e {
				match e {
					Term::Id(Id::Iri(iri)) => {
						let iri = iri_of(&mut self.v, iri);
						self.i.assign_iri(&r, iri);
					}
					Term::Id(Id::Blank(_)) => unreachable!(),
					Term::Literal(l) => {
						let l = literal_of(&mut self.v, l);
						self.i.assign_literal(&r, l);
					}
				}
			}
		}
		self.w.extra = extra;
	}

	/// May a literal denote an integer that `i64` cannot hold?
	fn has_large(&self) -> bool {
		self.w.names().values().flatten().any(|t| match t {
			Term::Literal(l) => {
				let digits = |s: &str| s.len() >= 19 || s.contains(['e', 'E']);
				l.value.split(|c: char| !c.is_ascii_alphanumeric()).any(digits)
			}
			_ => false,
		})
	}

	fn constants(&mut self) {
		for t in constants(&self.s.reg) {
			self.resource(&t);
		}
	}

	/// Resource of a term.
	fn resource(&mut self, t: &Term) -> I::Resource {
		let t = self.w.canon(t);
		if let Some(r) = self.known.get(&t) {
			return r.clone();
		}
		let r = match &t {
			Term::Id(Id::Iri(i)) => {
				let i = iri_of(&mut self.v, i);
				self.i.interpret_iri(i)
			}
			Term::Id(Id::Blank(_)) => self.i.new_resource(&mut self.v),
			Term::Literal(l) => {
				let l = literal_of(&mut self.v, l);
				self.i.interpret_literal(l)
			}
		};
		self.known.insert(t, r.clone());
		r
	}

	fn deserialize(&mut self, cov: &mut Cov, data: &[Q], graph: &Option<Term>, inputs: &[Term]) -> Case {
		let mut cdata: Vec<Q> = data.iter().map(|q| self.w.q(q)).collect();
		cdata.sort();
		cdata.dedup();
		if settle(&mut cdata) {
			return Err(Bad::Skip("quads that the dataset cannot index"));
		}
		let cgraph = graph.as_ref().map(|g| self.w.canon(g));
		let cinputs: Vec<Term> = inputs.iter().map(|t| self.w.canon(t)).collect();
		let mut hy = Hy::new(&self.reg, &cdata);
		hy.names = self.w.names();
		let expected = hy.run(&self.s.root, cgraph.as_ref(), &cinputs);
		match &expected {
			Err(e) if e.contains(&HErr::Budget) || e.contains(&HErr::Unspecified) => {
				cov.hit("skipped: unspecified or reference budget");
				return Ok(());
			}
			Ok(v) if too_large(v) => {
				cov.hit("skipped: number larger than the type");
				return Ok(());
			}
			Err(e) if e.iter().any(|e| matches!(e, HErr::Ambiguous(_))) && self.has_large() => {
				cov.hit("skipped: number larger than the type");
				return Ok(());
			}
			_ if matches!(self.e.name, "Tree" | "Forest") && hy.seen.contains_key("cyclic data") => {
				cov.hit("skipped: data that a recursive type follows for ever");
				return Ok(());
			}
			_ => (),
		}
		cov.hits(&hy.seen);
		let mut ds = IndexedBTreeDataset::new();
		let (a, b): (Vec<&Q>, Vec<&Q>) = cdata.iter().partition(|q| !repeats(q));
		for q in a.into_iter().chain(b) {
			ds.insert(Quad(
				self.resource(&q.0),
				self.resource(&q.1),
				self.resource(&q.2),
				q.3.as_ref().map(|g| self.resource(g)),
			));
		}
		let rgraph = cgraph.as_ref().map(|g| self.resource(g));
		let rinputs: Vec<_> = cinputs.iter().map(|t| self.resource(t)).collect();
		let real = guard("deserialize_ld_with", || {
			(self.de)(&self.v, &self.i, &ds, rgraph.as_ref(), &rinputs)
		})?;
		cov.eval();
		match (&real, &expected) {
			(Ok(v), Ok(r)) => {
				let r = shape(r, &self.reg);
				if *v != r {
					bad!("deserialized {v:?}\nexpected {r:?}")
				}
				cov.hit("deserialized");
				if value_size(v) >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}value: {v:?}"));
				}
			}
			(Err(e), Err(_)) => {
				cov.hit(format!("rejected: {}", format!("{e:?}").split('(').next().unwrap_or("")));
				cov.observe(&cov.case.clone());
			}
			(Ok(v), Err(x)) => bad!("deserialized {v:?}\nexpected one of the errors {x:?}"),
			(Err(e), Ok(r)) => bad!("deserialization failed with {e:?}\nexpected {r:?}"),
		}
		Ok(())
	}

	fn serialize(&mut self, rng: &mut Rng, cov: &mut Cov) -> Case {
		let case = cov.case.clone();
		let t = (self.e.ops.gen)(rng);
		let value = (self.e.ops.value)(&*t);
		self.constants();
		let reg = self.reg.clone();
		let mut de = De::new(&reg);
		de.names = self.w.names().into_iter().map(|(k, v)| (RRes::Term(k), v)).collect();
		let mut inputs = Vec::new();
		let mut reals = Vec::new();
		for j in 0..self.e.inputs {
			if rng.pct(20) {
				let t = if rng.pct(40) { random_literal(rng) } else { iri(&format!("{EX}n{}", rng.below(3))) };
				let t = self.w.canon(&t);
				reals.push(self.resource(&t));
				inputs.push(RRes::Term(t));
			} else {
				let r = self.i.new_resource(&mut self.v);
				if rng.pct(30) {
					let t = iri(&format!("{EX}i{j}"));
					let i = iri_of(&mut self.v, t.as_iri().unwrap());
					self.i.assign_iri(&r, i);
					de.names.insert(RRes::Input(j), [t].into());
				}
				reals.push(r);
				inputs.push(RRes::Input(j));
			}
		}
		let graph = match rng.below(3) {
			0 => Some(self.w.canon(&iri(&format!("{EX}g{}", rng.below(2))))),
			_ => None,
		};
		let rgraph = graph.as_ref().map(|g| self.resource(g));
		cov.case.push_str(&format!("value: {value:?}\ninputs: {inputs:?} {:?}\ngraph: {graph:?}\n", de.names));
		let mut out = Out::default();
		let expected = de.go(&self.s.root, &value, graph.map(RRes::Term).as_ref(), &inputs, &mut out, &[]);
		match expected {
			Ok(()) => (),
			Err(e) if e.contains(&DErr::Budget) => return Err(Bad::Skip("reference budget")),
			Err(e) => panic!("the reference rejects a typed value: {e:?}"),
		}
		if out.choice || out.lossy {
			cov.hit("skipped: several terms, or none, may be assigned");
			cov.case = case;
			return Ok(());
		}
		let mut known: BTreeMap<I::Resource, RRes> =
			self.known.iter().map(|(k, v)| (v.clone(), RRes::Term(k.clone()))).collect();
		for (r, i) in reals.iter().zip(&inputs) {
			known.insert(r.clone(), i.clone());
		}
		let before: BTreeMap<I::Resource, BTreeSet<Term>> =
			known.keys().map(|r| (r.clone(), names_of(&self.v, &self.i, r))).collect();
		let mut ds = BTreeDataset::<I::Resource>::new();
		let real = guard("serialize_ld_with", || {
			(self.ser)(&*t, &mut self.v, &mut self.i, &reals, rgraph.as_ref(), &mut ds)
		})?;
		cov.eval();
		if real.is_err() {
			bad!("serialization failed")
		}
		let (refq, realq) = outputs(&out, &|r| de.names(r), &known, &before, &ds, &self.v, &self.i);
		if !isomorphic(&refq, &realq, |t| matches!(t, Term::Id(Id::Blank(_)))) {
			bad!("serialized to\n{}expected\n{}", print_data(&realq), print_data(&refq))
		}
		cov.hit("serialized");
		cov.hits(&de.seen);
		if realq.len() >= 2 {
			cov.observe(&cov.case.clone());
			let case = cov.case.clone();
			cov.sample(|| format!("{case}dataset:\n{}", print_data(&realq)));
		}
		cov.case = case;
		Ok(())
	}
}

/// Derived conversions do not follow the other names of the datatypes.
fn plain_datatypes(w: &mut World) {
	let special = |t: &Term| match t {
		Term::Id(Id::Iri(i)) => i.as_str().starts_with(XSD) || i.as_str() == format!("{EX}D"),
		_ => false,
	};
	w.groups.retain(|g| {
		let keep = !g.iter().any(special);
		if !keep {
			for t in g {
				w.canon.remove(t);
			}
		}
		keep
	});
	w.extra.retain(|t, e| {
		e.retain(|t| !special(t));
		!special(t) && !e.is_empty()
	});
}

pub fn p17(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let e: &'static Entry = &ENTRIES[rng.below(ENTRIES.len())];
	let mut lays = Vec::new();
	layouts_of(e.name, &mut BTreeSet::new(), &mut lays);
	if matches!(e.name, "Tree" | "Forest") {
		// the root is last.
		lays.retain(|l| l.header().unwrap().id != (e.lay)().header().unwrap().id);
		lays.push((e.lay)());
	}
	let s = scene_of(rng, cov, lays)?;
	cov.case = format!("type {}:\n{}\n", e.name, e.decl);
	cov.hit(format!("type {}", e.name));
	let docs = cov.case.clone();
	for _ in 0..3 {
		cov.case = docs.clone();
		let fit = rng.pct(70);
		let Some((data, graph, inputs)) = data_of(rng, &s.reg, &s.root, fit, &mut |rng| {
			if rng.pct(85) {
				let t = (e.ops.gen)(rng);
				(e.ops.value)(&*t)
			} else {
				let mut vg = VGen {
					reg: &s.reg,
					noise: 1,
					unique: 0,
					strict: false,
					fuel: 60,
				};
				vg.value(rng, &s.root, 4)
			}
		}) else {
			continue;
		};
		if inputs.len() != e.inputs {
			continue;
		}
		describe(cov, &data, &graph, &inputs);
		let merge = rng.pct(50);
		let mut w = if rng.pct(40) {
			World {
				groups: Vec::new(),
				canon: BTreeMap::new(),
				extra: BTreeMap::new(),
			}
		} else {
			world(rng, &s, &data, merge)
		};
		plain_datatypes(&mut w);
		for g in &w.groups {
			cov.case.push_str(&format!("same: {}\n", g.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")));
			cov.hit("merged terms");
		}
		for (t, e) in &w.extra {
			cov.case.push_str(&format!("{t} is also: {}\n", e.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")));
			cov.hit("additional terms");
		}
		let first = rng.pct(30);
		let reg = w.reg(&s.reg);
		if merge {
			let mut m = Merged::default();
			for g in &w.groups {
				let i = m.names.len();
				m.names.push(g.iter().filter(|t| !matches!(t, Term::Id(Id::Blank(_)))).cloned().collect());
				for t in g {
					m.by.insert(t.clone(), i);
				}
			}
			let known = w.groups.iter().enumerate().map(|(i, g)| (g.first().unwrap().clone(), R(i))).collect();
			let mut run = Run { s: &s, e, w, reg, v: (), i: m, known, de: e.ops.de.0, ser: e.ops.ser.0 };
			run.new(first);
			run.deserialize(cov, &data, &graph, &inputs)?;
			run.serialize(rng, cov)?;
		} else {
			let mut run = Run {
				s: &s,
				e,
				w,
				reg,
				v: VI::new(),
				i: Indexed::new(),
				known: BTreeMap::new(),
				de: e.ops.de.1,
				ser: e.ops.ser.1,
			};
			run.new(first);
			run.deserialize(cov, &data, &graph, &inputs)?;
			run.serialize(rng, cov)?;
		}
	}
	Ok(())
}

/// Does deserializing a tree that is its own child fail to return?
pub fn recursive_cycle() -> bool {
	let e = ENTRIES.iter().find(|e| e.name == "Tree").unwrap();
	let mut i = Merged::default();
	let mut res = |t: Term| match t {
		Term::Id(Id::Iri(t)) => i.interpret_iri(t),
		_ => unreachable!(),
	};
	let n = res(iri(&format!("{EX}n0")));
	let p = res(iri(&format!("{EX}child")));
	let mut ds = IndexedBTreeDataset::new();
	ds.insert(Quad(n.clone(), p, n.clone(), None));
	// a stack overflow ends the process.
	let _ = (e.ops.de.0)(&(), &i, &ds, None, &[n]);
	false
}

/// Replaces the native layouts by those of the prelude.
pub fn prelude(mut json: String) -> String {
	for n in ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "String"] {
		json = json.replace(&format!("\"{EX}{n}\""), &format!("\"https://treeldr.org/prelude#{}\"", n.to_lowercase()));
	}
	json
}
