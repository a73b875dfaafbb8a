//! Layout collections, registries, references and the prelude.
use super::distill::{data, describe, scene_of, value_size, Scene};
use crate::ast::*;
use crate::gen::*;
use crate::real::*;
use crate::refc::*;
use crate::refde;
use crate::refhy::{HErr, Hy, Q};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::dataset::BTreeDataset;
use rdf_types::interpretation::*;
use rdf_types::vocabulary::*;
use rdf_types::{InterpretationMut, Term};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use treeldr_layouts as tl;
use treeldr_layouts::layout::{LayoutType, ListLayout, LiteralLayout, ProductLayoutType};
use treeldr_layouts::{Layout, LayoutRegistry, Layouts, Pattern, Prelude, PresetLayout, Ref};

pub static PROPS: &[Prop] = &[Prop {
	id: "P19",
	rule: "layouts spread over 1 to 4 registries that redefine each other's layouts, combined in every way, with and without the prelude, then used in both directions; collections, references and serialized layouts; non trivial: at least two layers define the same layout differently and the conversion succeeds with 2 nodes or quads, or fails; distinct by (layouts, layers, data or value)",
	quick: 200_000,
	thorough: 5_000_000,
	hang: 60,
	threads: 8,
	run: p19,
}];

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) };
}

const PRE: &str = "https://treeldr.org/prelude#";
const NUMBERS: [(&str, &str); 8] = [
	("u8", "unsignedByte"),
	("u16", "unsignedShort"),
	("u32", "unsignedInt"),
	("u64", "unsignedLong"),
	("i8", "byte"),
	("i16", "short"),
	("i32", "int"),
	("i64", "long"),
];

/// Reference definition of the prelude.
pub fn prelude() -> RReg {
	let h = |n: &str| Header {
		id: Some(format!("{PRE}{n}")),
		..Header::default()
	};
	let mut lays = vec![
		Lay::Unit(h("unit"), None),
		Lay::Boolean(h("boolean"), None, None),
		Lay::Str(h("string"), None, None, None),
		Lay::Id(h("id"), None, None),
	];
	for (n, d) in NUMBERS {
		lays.push(Lay::Number(h(n), None, format!("{XSD}{d}")));
	}
	compile(&lays.iter().collect::<Vec<_>>()).ok().unwrap().0
}

fn key_iri(k: &Key) -> Option<Term> {
	match k {
		Key::Iri(i) => Some(iri(i)),
		Key::Anon(_) => None,
	}
}

struct World {
	s: Scene,
	/// Reference layouts, according to the effective registry.
	reg: RReg,
	/// Real definitions, according to the effective registry.
	real: BTreeMap<Term, Layout>,
	/// All the layout identifiers.
	ids: Vec<Term>,
	/// Some layout has several definitions.
	redefined: bool,
	rounds: usize,
}

impl World {
	fn check<G: LayoutRegistry>(&self, rng: &mut Rng, cov: &mut Cov, reg: &G, what: &str) -> Case {
		cov.hit(format!("shape {what}"));
		cov.case.push_str(&format!("registry: {what}\n"));
		for id in &self.ids {
			let r = Ref::<LayoutType>::new(id.clone());
			let got = reg.get(&r);
			let expected = self.real.get(id);
			if got != expected {
				bad!("{what}: get({id}) is {got:?}\nexpected {expected:?}")
			}
			if reg.contains(&r) != expected.is_some() {
				bad!("{what}: contains({id}) is {}", expected.is_none())
			}
			cov.eval();
		}
		let docs = cov.case.clone();
		for _ in 0..self.rounds {
			cov.case = docs.clone();
			if rng.pct(50) {
				self.hydrate(rng, cov, reg)?
			} else {
				self.dehydrate(rng, cov, reg)?
			}
		}
		cov.case = docs;
		Ok(())
	}

	fn hydrate<G: LayoutRegistry>(&self, rng: &mut Rng, cov: &mut Cov, reg: &G) -> Case {
		let fit = rng.pct(80);
		let Some((data, graph, inputs)) = data(rng, &self.s, fit) else {
			return Ok(());
		};
		describe(cov, &data, &graph, &inputs);
		let mut hy = Hy::new(&self.reg, &data);
		let expected = hy.run(&self.s.root, graph.as_ref(), &inputs);
		if let Err(e) = &expected {
			if e.contains(&HErr::Budget) || e.contains(&HErr::Unspecified) {
				cov.hit("skipped: unspecified or reference budget");
				return Ok(());
			}
		}
		let ds = dataset(&data);
		let real = guard("hydrate", || {
			if graph.is_none() && rng.pct(50) {
				tl::hydrate(reg, &ds, &self.s.root_ref, &inputs)
			} else {
				tl::hydrate_with(&(), &(), reg, &ds, graph.as_ref(), &self.s.root_ref, &inputs)
			}
		})?;
		cov.eval();
		match (&expected, &real) {
			(Ok(r), Ok(v)) => {
				if !same_value(v, r, &self.s.map) {
					bad!("hydrate returned {v:?}\nexpected {r:?}")
				}
				let untyped = v.clone().into_untyped();
				cov.hit("hydrated");
				if self.redefined && value_size(&untyped) >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}value: {untyped:?}"));
				}
			}
			(Err(e), Err(f)) => {
				if !justified_hy(f, e, &self.s.map) {
					bad!("hydrate failed with {f:?}\nexpected one of {e:?}")
				}
				if self.redefined {
					cov.observe(&cov.case.clone());
				}
				cov.hit("not hydrated");
			}
			(Ok(r), Err(e)) => bad!("hydrate failed with {e:?}\nexpected {r:?}"),
			(Err(e), Ok(v)) => bad!("hydrate returned {v:?}\nexpected one of the errors {e:?}"),
		}
		Ok(())
	}

	fn dehydrate<G: LayoutRegistry>(&self, rng: &mut Rng, cov: &mut Cov, reg: &G) -> Case {
		let mut vg = VGen {
			reg: &self.reg,
			noise: *rng.pick(&[0, 0, 0, 4]),
			unique: 0,
			strict: false,
			fuel: 60,
		};
		let value = vg.value(rng, &self.s.root, 4);
		cov.case.push_str(&format!("value: {value:?}\n"));
		let mut seen = BTreeMap::new();
		let expected = refde::dehydrate(&self.reg, &self.s.root, &value, 1, &mut seen);
		if let Err(e) = &expected {
			if e.contains(&refde::DErr::Budget) {
				cov.hit("skipped: unspecified or reference budget");
				return Ok(());
			}
		}
		let real = guard("dehydrate", || {
			tl::distill::dehydrate(reg, &value, &self.s.root_ref, Default::default())
		})?;
		cov.eval();
		match (expected, real) {
			(Ok(e), Ok((ds, subjects))) => {
				let (eq, es) = e.ground(
					|i| blank(&format!("anon{i}")),
					|i| blank(&format!("input{i}")),
				);
				let rq = quads(&ds);
				if subjects != es {
					bad!("dehydrate returned subjects {subjects:?}\nexpected {es:?}")
				}
				if !refde::isomorphic(&eq, &rq, super::distill::is_anon) {
					bad!("dehydrate returned\n{}expected\n{}", print_data(&rq), print_data(&eq))
				}
				cov.hit("dehydrated");
				if self.redefined && rq.len() >= 2 {
					cov.observe(&cov.case.clone());
				}
			}
			(Err(e), Err(f)) => {
				if !justified_de(&f, &e, &self.s.map) {
					bad!("dehydrate failed with {f:?}\nexpected one of {e:?}")
				}
				cov.hit("not dehydrated");
				if self.redefined {
					cov.observe(&cov.case.clone());
				}
			}
			(Ok(_), Err(f)) => bad!("dehydrate failed with {f:?}\nexpected a dataset"),
			(Err(e), Ok((ds, _))) => bad!(
				"dehydrate returned\n{}expected one of the errors {e:?}",
				print_data(&quads(&ds))
			),
		}
		Ok(())
	}
}

/// A registry that only answers for some identifiers.
struct Custom(Layouts);

impl LayoutRegistry for Custom {
	fn get(&self, id: &Ref<LayoutType>) -> Option<&Layout> {
		self.0.layout(id.id())
	}
}

fn p19(rng: &mut Rng, cov: &mut Cov, idx: u64) -> Case {
	match idx % 12 {
		0 => return collections(rng, cov),
		1 => return prelude_case(rng, cov),
		_ => (),
	}
	let pre = prelude();
	let with_prelude = rng.pct(40);
	let mut g = Gen::new(rng, false);
	if with_prelude {
		for k in pre.lays.keys() {
			if let Key::Iri(i) = k {
				g.foreign.push((i.clone(), 1));
			}
		}
	}
	let (lays, _) = Gen::library_of(rng, g);
	let s = scene_of(rng, cov, lays)?;
	let pre_layouts = Prelude::build();
	// all the definitions.
	let keys: Vec<Key> = s.reg.lays.keys().cloned().collect();
	let all: Vec<(Key, Term)> = keys
		.iter()
		.filter_map(|k| Some((k.clone(), s.map.get(k)?.clone())))
		.chain(pre.lays.keys().map(|k| (k.clone(), key_iri(k).unwrap())))
		.collect();
	let def = |k: &Key| -> (RLay, Layout) {
		match s.reg.lays.get(k) {
			Some(l) => (l.clone(), s.layouts.layout(&s.map[k]).unwrap().clone()),
			None => (pre.lays[k].clone(), pre_layouts.layout(&key_iri(k).unwrap()).unwrap().clone()),
		}
	};
	let n = rng.range(1, 4);
	let mut layers: Vec<BTreeMap<Key, Key>> = vec![BTreeMap::new(); n];
	for (k, _) in &all {
		let is_pre = pre.lays.contains_key(k);
		if is_pre && !rng.pct(if with_prelude { 15 } else { 3 }) {
			continue;
		}
		if !is_pre {
			let home = rng.below(n);
			if !rng.pct(4) {
				layers[home].insert(k.clone(), k.clone());
			}
		}
		for l in layers.iter_mut() {
			if rng.pct(15) {
				l.insert(k.clone(), rng.pick(&all).0.clone());
			}
		}
	}
	let mut reals: Vec<Layouts> = Vec::new();
	let mut redefined = false;
	for l in &layers {
		let mut r = Layouts::new();
		for (k, d) in l {
			let id = all.iter().find(|(a, _)| a == k).unwrap().1.clone();
			r.insert(id, def(d).1);
		}
		reals.push(r);
	}
	for (i, l) in layers.iter().enumerate() {
		for (k, d) in l {
			cov.case.push_str(&format!("layer {i}: {k:?} is {d:?}\n"));
			redefined |= layers[..i].iter().any(|m| m.get(k).is_some_and(|e| e != d));
		}
	}
	let shape = rng.below(8);
	// order of precedence of the layers, and whether the prelude comes last,
	// or first.
	let mut reg = RReg {
		lays: BTreeMap::new(),
		anon: s.reg.anon,
	};
	let mut real = BTreeMap::new();
	let first = with_prelude && rng.pct(20);
	if first {
		for k in pre.lays.keys() {
			let (a, b) = def(k);
			reg.lays.insert(k.clone(), a);
			real.insert(key_iri(k).unwrap(), b);
		}
	}
	for l in &layers {
		for (k, d) in l {
			if !reg.lays.contains_key(k) {
				let (a, b) = def(d);
				reg.lays.insert(k.clone(), a);
				real.insert(all.iter().find(|(a, _)| a == k).unwrap().1.clone(), b);
			}
		}
	}
	if with_prelude {
		for k in pre.lays.keys() {
			if !reg.lays.contains_key(k) {
				let (a, b) = def(k);
				reg.lays.insert(k.clone(), a);
				real.insert(key_iri(k).unwrap(), b);
			}
		}
	}
	let mut ids: Vec<Term> = all.iter().map(|(_, t)| t.clone()).collect();
	ids.push(iri(&format!("{EX}Lundefined")));
	ids.push(iri(&format!("{PRE}u")));
	let mut map = s.map.clone();
	for k in pre.lays.keys() {
		map.insert(k.clone(), key_iri(k).unwrap());
	}
	let s = Scene { map, ..s };
	// values and data are generated against the effective registry.
	let s = Scene {
		reg: RReg {
			lays: reg.lays.clone(),
			anon: reg.anon,
		},
		..s
	};
	if !s.reg.lays.contains_key(&s.root) && rng.pct(80) {
		return Err(Bad::Skip("undefined root"));
	}
	let w = World {
		s,
		reg,
		real,
		ids,
		redefined,
		rounds: 2,
	};
	if first {
		cov.hit("prelude first");
	}
	macro_rules! go {
		($what:expr, $reg:expr) => {
			w.check(rng, cov, &$reg, $what)?
		};
	}
	let mut it = reals.into_iter();
	match (n, with_prelude) {
		(1, false) => {
			let a = it.next().unwrap();
			match shape {
				0 => go!("a", a),
				1 => go!("&&a", &&a),
				2 => go!("Some(a)", Some(a)),
				3 => go!("a.with(None)", a.with(None::<Layouts>)),
				4 => go!("None.into_with(a)", None::<Layouts>.into_with(a)),
				5 => go!("a.into_with(&empty)", a.into_with(&Layouts::new())),
				6 => go!("Custom(a)", Custom(a)),
				_ => go!("Some(&a)", Some(&a)),
			}
		}
		(1, true) => {
			let a = it.next().unwrap();
			match (first, shape) {
				(true, 0..=3) => go!("Prelude.into_with(a)", Prelude.into_with(a)),
				(true, _) => go!("Prelude.with(&a)", Prelude.with(&a)),
				(_, 0..=1) => go!("a.with(Prelude)", a.with(Prelude)),
				(_, 2..=3) => go!("a.into_with(Some(Prelude))", a.into_with(Some(Prelude))),
				(_, 4) => go!("Custom(a).into_with(Prelude)", Custom(a).into_with(Prelude)),
				(_, 5) => go!("a.into_with(Prelude::build())", a.into_with(Prelude::build())),
				_ => go!("Some(a).into_with(&Prelude)", Some(a).into_with(&Prelude)),
			}
		}
		(2, p) => {
			let (a, b) = (it.next().unwrap(), it.next().unwrap());
			let tail = p.then_some(Prelude);
			let head = if first { Some(Prelude) } else { None };
			match (first, shape) {
				(true, _) => go!("Prelude, a.with(b)", head.into_with(a.with(&b))),
				(_, 0) => go!("a.with(b).with(P)", a.with(&b).with(&tail)),
				(_, 1) => go!("a.into_with(b).into_with(P)", a.into_with(b).into_with(tail)),
				(_, 2) => go!("a.with(b.with(P))", a.with(b.with(tail))),
				(_, 3) => go!("Some(a).with(Custom(b)).with(P)", Some(a).with(Custom(b)).with(tail)),
				(_, 4) => go!(
					"LayoutRegistryUnion",
					tl::LayoutRegistryUnion(tl::LayoutRegistryUnion(tail, b), a)
				),
				(_, 5) => go!("(&a).into_with(Some(b)).with(P)", (&a).into_with(Some(b)).with(tail)),
				(_, 6) => go!("a.with(None.into_with(b)).with(P)", a.with(None::<Custom>.into_with(&b)).with(tail)),
				_ => go!("a.with(P.into_with(b))", {
					// the second collection cannot redefine the prelude.
					if p && layers[1].keys().any(|k| pre.lays.contains_key(k)) {
						return Err(Bad::Skip("shape"));
					}
					a.with(tail.into_with(&b))
				}),
			}
		}
		(3, p) => {
			let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
			let tail = p.then_some(Prelude);
			match (first, shape) {
				(true, _) => go!("Prelude, a, b, c", Prelude.into_with(a).with(&b).with(c)),
				(_, 0..=1) => go!("a.with(b).with(c).with(P)", a.with(&b).with(&c).with(tail)),
				(_, 2..=3) => go!("a.with(b.with(c)).with(P)", a.with(b.with(&c)).with(tail)),
				(_, 4) => go!("a.with(b.into_with(c.into_with(P)))", a.with(b.into_with(c.into_with(tail)))),
				(_, _) => go!("a.into_with(b).into_with(c).into_with(P)", a.into_with(b).into_with(Custom(c)).into_with(tail)),
			}
		}
		(_, p) => {
			let (a, b, c, d) =
				(it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
			let tail = p.then_some(Prelude);
			match (first, shape) {
				(true, _) => go!("Prelude, (a, b), (c, d)", Prelude.into_with(a.with(&b).with(c.with(&d)))),
				(_, 0..=3) => go!("a.with(b).with(c.with(d)).with(P)", a.with(&b).with(c.with(&d)).with(tail)),
				(_, _) => go!("a.with(b).with(c).with(d).with(P)", a.into_with(b).into_with(c).into_with(d).into_with(tail)),
			}
		}
	}
	Ok(())
}

/// Each layout of the prelude at the limits of its datatype, alone.
fn prelude_case(rng: &mut Rng, cov: &mut Cov) -> Case {
	let pre = prelude();
	let keys: Vec<Key> = pre.lays.keys().cloned().collect();
	// presets.
	let names = ["id", "unit", "boolean", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "string"];
	for n in names {
		let i = iref::IriBuf::new(format!("{PRE}{n}")).unwrap();
		use PresetLayout as P;
		let ok = matches!(
			(PresetLayout::from_iri(&i), n),
			(Some(P::Id), "id")
				| (Some(P::Unit), "unit")
				| (Some(P::Boolean), "boolean")
				| (Some(P::U8), "u8")
				| (Some(P::U16), "u16")
				| (Some(P::U32), "u32")
				| (Some(P::U64), "u64")
				| (Some(P::I8), "i8")
				| (Some(P::I16), "i16")
				| (Some(P::I32), "i32")
				| (Some(P::I64), "i64")
				| (Some(P::String), "string")
		);
		if !ok {
			bad!("wrong preset for {i}")
		}
		let Ok(j) = iref::IriBuf::new(match rng.below(4) {
			0 => format!("{PRE}{n}x"),
			1 => format!("{PRE}{}", n.to_uppercase()),
			2 => format!("{PRE}{}", &n[1..]),
			_ => format!("http{}", &i.as_str()[5..]),
		}) else {
			continue;
		};
		if PresetLayout::from_iri(&j).is_some() {
			bad!("{j} is a preset")
		}
	}
	// another vocabulary and interpretation, not empty.
	let mut v = IndexVocabulary::<IriIndex, BlankIdIndex>::new();
	let mut i = Indexed::new();
	let mut known: BTreeMap<Term, _> = BTreeMap::new();
	macro_rules! res {
		($t:expr) => {{
			let t: &Term = $t;
			match t {
				Term::Id(rdf_types::Id::Iri(x)) => {
					let x = v.insert(x);
					i.interpret_iri(x)
				}
				Term::Id(rdf_types::Id::Blank(b)) => {
					let b = v.insert_blank_id(b);
					i.interpret_blank_id(b)
				}
				Term::Literal(l) => {
					let ty = match &l.type_ {
						rdf_types::LiteralType::Any(x) => rdf_types::LiteralType::Any(v.insert(x)),
						rdf_types::LiteralType::LangString(x) => rdf_types::LiteralType::LangString(x.clone()),
					};
					let l = v.insert_owned_literal(rdf_types::Literal::new(l.value.clone(), ty));
					i.interpret_literal(l)
				}
			}
		}};
	}
	for k in 0..rng.below(4) {
		if rng.pct(50) {
			let r = iri(&format!("{EX}x{k}"));
			res!(&r);
		} else {
			i.new_resource(&mut v);
		}
	}
	if rng.pct(20) {
		res!(&iri(&format!("{PRE}u8")));
	}
	let layouts = guard("Prelude::build_with", || Prelude::build_with(&mut v, &mut i))?;
	let lits = Prelude::build();
	if lits.iter().count() != 12 || layouts.iter().count() != 12 {
		bad!("the prelude does not have 12 layouts")
	}
	for k in &keys {
		let id = key_iri(k).unwrap();
		let r = Ref::<LayoutType>::new(id.clone());
		if Prelude.get(&r) != lits.layout(&id) || !Prelude.contains(&r) {
			bad!("{id} differs between the prelude and its layouts")
		}
		known.insert(id.clone(), res!(&id));
	}
	for _ in 0..10 {
		let k = rng.pick(&keys).clone();
		let id = key_iri(&k).unwrap();
		let input = match rng.below(6) {
			0 => iri(&format!("{EX}n")),
			1 => blank("b"),
			2 => random_literal(rng),
			_ => {
				let (_, d) = NUMBERS[rng.below(8)];
				let (lo, hi): (i128, i128) = match d {
					"unsignedByte" => (0, u8::MAX as i128),
					"unsignedShort" => (0, u16::MAX as i128),
					"unsignedInt" => (0, u32::MAX as i128),
					"unsignedLong" => (0, u64::MAX as i128),
					"byte" => (i8::MIN as i128, i8::MAX as i128),
					"short" => (i16::MIN as i128, i16::MAX as i128),
					"int" => (i32::MIN as i128, i32::MAX as i128),
					_ => (i64::MIN as i128, i64::MAX as i128),
				};
				let n = *rng.pick(&[lo, lo - 1, hi, hi + 1, 0, -1, 1]);
				// of the datatype of the layout, usually.
				let ty = match &pre.lays[&k] {
					RLay::Lit { datatype, .. } if !datatype.is_empty() && rng.pct(80) => datatype.clone(),
					_ => format!("{XSD}{d}"),
				};
				let text = if ty.ends_with("boolean") {
					rng.pick(&["true", "false", "1", "0", "TRUE", ""]).to_string()
				} else {
					n.to_string()
				};
				lit(&text, &ty)
			}
		};
		cov.case = format!("layout: {id}\ninput: {input}\n");
		let reg = &pre;
		let mut hy = Hy::new(reg, &[]);
		let expected = hy.run(&k, None, &[input.clone()]);
		let types: BTreeMap<Key, Term> = keys.iter().map(|k| (k.clone(), key_iri(k).unwrap())).collect();
		let empty: Vec<Q> = Vec::new();
		let a = guard("hydrate", || {
			tl::hydrate(Prelude, &dataset(&empty), &Ref::new(id.clone()), &[input.clone()])
		})?;
		let ri = res!(&input);
		let b = guard("hydrate", || {
			let ds = rdf_types::dataset::IndexedBTreeDataset::new();
			tl::hydrate_with(&v, &i, &layouts, &ds, None, &Ref::new(known[&id].clone()), &[ri.clone()])
		})?;
		cov.eval();
		match &expected {
			Err(e) if e.contains(&HErr::Unspecified) => (),
			Ok(r) => {
				if !a.as_ref().is_ok_and(|a| same_value(a, r, &types)) {
					bad!("hydrate returned {a:?}\nexpected {r:?}")
				}
				if !b.as_ref().is_ok_and(|b| same_value_by(b, r, &|t, k| key_iri(k).is_some_and(|k| known.get(&k) == Some(t)))) {
					bad!("hydrate returned {b:?}\nexpected {r:?} with an interpretation")
				}
				cov.observe(&cov.case.clone());
				cov.hit("prelude hydrated");
			}
			Err(e) => {
				if !a.as_ref().is_err_and(|a| justified_hy(a, e, &types)) {
					bad!("hydrate returned {a:?}\nexpected one of {e:?}")
				}
				if b.is_ok() {
					bad!("hydrate returned {b:?}\nexpected one of {e:?} with an interpretation")
				}
				cov.hit("prelude not hydrated");
			}
		}
		// and back.
		let mut vg = VGen {
			reg: &pre,
			noise: 1,
			unique: 0,
			strict: false,
			fuel: 3,
		};
		let value = match &expected {
			Ok(r) if rng.pct(50) => r.untyped(),
			_ => {
				let other = rng.pick(&keys).clone();
				let k = if rng.pct(80) { &k } else { &other };
				vg.value(rng, k, 1)
			}
		};
		cov.case = format!("layout: {id}\nvalue: {value:?}\n");
		let mut seen = BTreeMap::new();
		let expected = refde::dehydrate(&pre, &k, &value, 1, &mut seen);
		let a = guard("dehydrate", || {
			tl::distill::dehydrate(Prelude, &value, &Ref::new(id.clone()), Default::default())
		})?;
		let r = i.new_resource(&mut v);
		let mut out = BTreeDataset::new();
		let b = guard("dehydrate", || {
			let mut rdf = tl::distill::RdfContextMut::new(&mut v, &mut i);
			tl::distill::dehydrate_with(&mut rdf, &layouts, &value, None, &Ref::new(known[&id].clone()), &[r.clone()], &mut out)
		})?;
		cov.eval();
		match &expected {
			Ok(d) => {
				let (q, s) = d.ground(|i| blank(&format!("anon{i}")), |i| blank(&format!("input{i}")));
				if !a.as_ref().is_ok_and(|(ds, subjects)| quads(ds) == q && *subjects == s) {
					bad!("dehydrate returned {a:?}\nexpected {q:?} {s:?}")
				}
				if b.is_err() || !out.is_empty() {
					bad!("dehydrate returned {b:?} with an interpretation")
				}
				cov.observe(&cov.case.clone());
				cov.hit("prelude dehydrated");
			}
			Err(e) => {
				if !a.as_ref().is_err_and(|a| justified_de(a, e, &types)) {
					bad!("dehydrate returned {a:?}\nexpected one of {e:?}")
				}
				if b.is_ok() {
					bad!("dehydrate succeeded with an interpretation\nexpected one of {e:?}")
				}
			}
		}
	}
	Ok(())
}

fn hash(t: &impl Hash) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// Changes something in a layout.
fn tweak(rng: &mut Rng, l: &Layout) -> Layout {
	let mut m = l.clone();
	fn fmt(rng: &mut Rng, intro: &mut u32, v: &mut tl::ValueFormat<Term>, d: &mut tl::Dataset<Term>) {
		match rng.below(5) {
			0 => *intro += 1,
			1 => {
				v.graph = match &v.graph {
					None => Some(None),
					Some(None) => {
						if rng.pct(50) {
							None
						} else {
							Some(Some(Pattern::Var(0)))
						}
					}
					Some(Some(_)) => Some(None),
				}
			}
			2 => v.input.push(Pattern::Var(0)),
			3 => v.layout = Ref::new(iri("urn:tweaked")),
			_ => put(d),
		}
	}
	fn put(d: &mut tl::Dataset<Term>) {
		let p = || Pattern::Resource(iri("urn:tweaked"));
		d.insert(rdf_types::Quad(p(), p(), p(), None));
	}
	macro_rules! head {
		($l:expr) => {
			match rng.below(4) {
				0 => $l.input += 1,
				1 => $l.intro += 1,
				2 => {
					$l.extra_properties.insert(iri("urn:tweaked"), iri("urn:x"));
				}
				_ => put(&mut $l.dataset),
			}
		};
	}
	let inner = rng.pct(60);
	match &mut m {
		Layout::Never => return Layout::Always,
		Layout::Always => return Layout::Never,
		Layout::Product(p) => match p.fields.values_mut().next() {
			Some(f) if inner => {
				if rng.pct(20) {
					f.required = !f.required
				} else {
					fmt(rng, &mut f.intro, &mut f.value, &mut f.dataset)
				}
			}
			_ => head!(p),
		},
		Layout::Sum(p) => match p.variants.last_mut() {
			Some(f) if inner => {
				if rng.pct(20) {
					f.name.push('x')
				} else {
					fmt(rng, &mut f.intro, &mut f.value, &mut f.dataset)
				}
			}
			_ => head!(p),
		},
		Layout::List(ListLayout::Unordered(p)) => {
			if inner {
				fmt(rng, &mut p.item.intro, &mut p.item.value, &mut p.item.dataset)
			} else {
				head!(p)
			}
		}
		Layout::List(ListLayout::Ordered(p)) => match rng.below(4) {
			0 => p.head = Pattern::Var(77),
			1 => p.tail = Pattern::Var(77),
			2 => fmt(rng, &mut p.node.intro, &mut p.node.value, &mut p.node.dataset),
			_ => head!(p),
		},
		Layout::List(ListLayout::Sized(p)) => match p.items.last_mut() {
			Some(f) if inner => fmt(rng, &mut f.intro, &mut f.value, &mut f.dataset),
			_ => head!(p),
		},
		Layout::Literal(l) => {
			use tl::layout::DataLayout as D;
			macro_rules! data {
				($l:expr) => {
					match rng.below(4) {
						0 => $l.resource = Pattern::Var(77),
						1 => $l.datatype = iri("urn:tweaked"),
						_ => head!($l),
					}
				};
			}
			match l {
				LiteralLayout::Id(l) => {
					if rng.pct(30) {
						l.resource = Pattern::Var(77)
					} else {
						head!(l)
					}
				}
				LiteralLayout::Data(D::Unit(l)) => {
					if rng.pct(30) {
						l.const_ = text("tweaked")
					} else {
						head!(l)
					}
				}
				LiteralLayout::Data(D::Boolean(l)) => data!(l),
				LiteralLayout::Data(D::Number(l)) => data!(l),
				LiteralLayout::Data(D::ByteString(l)) => data!(l),
				LiteralLayout::Data(D::TextString(l)) => data!(l),
			}
		}
	}
	m
}

fn collections(rng: &mut Rng, cov: &mut Cov) -> Case {
	let (lays, _) = Gen::library(rng, false);
	let s = scene_of(rng, cov, lays)?;
	let defs: Vec<(Key, Term, Layout)> = s
		.map
		.iter()
		.filter_map(|(k, t)| Some((k.clone(), t.clone(), s.layouts.layout(t)?.clone())))
		.collect();
	for (k, t, l) in &defs {
		let Some(r) = s.reg.lays.get(k) else {
			bad!("{t} should not be defined")
		};
		if l.input_count().map(|n| n as usize) != r.input_count() {
			bad!("{t}: input_count is {:?}, expected {:?}", l.input_count(), r.input_count())
		}
		let used: BTreeSet<&Term> = r.comps().iter().filter_map(|c| s.map.get(&c.fmt.layout)).collect();
		let deps: Vec<&Term> = l.dependencies().into_iter().map(|r| r.id()).collect();
		if deps != used.into_iter().collect::<Vec<_>>() {
			bad!("{t}: dependencies are {deps:?}")
		}
		let empty = BTreeMap::new();
		let extra = r.head().map(|h| &h.extra).unwrap_or(&empty);
		let real = l.extra_properties();
		if real.len() != extra.len() || !extra.iter().all(|(k, v)| real.get(&iri(k)).is_some_and(|t| extra_matches(v, t))) {
			bad!("{t}: extra_properties are {real:?}, expected {extra:?}")
		}
		cov.eval();
		// identity.
		let m = tweak(rng, l);
		if *l == m || hash(l) == hash(&m) || l.cmp(&m).is_eq() || l.cmp(&m) != m.cmp(l).reverse() || l.partial_cmp(&m) != Some(l.cmp(&m)) {
			bad!("{l:?}\nand {m:?}\nare not properly compared")
		}
		let c = l.clone();
		if *l != c || hash(l) != hash(&c) || !l.cmp(&c).is_eq() {
			bad!("{l:?}\ndiffers from its copy")
		}
		// serialization.
		for l in [l, &m] {
			let bytes = guard("serialize", || serde_cbor::to_vec(l))?
				.map_err(|e| Bad::Violation(format!("cannot serialize {l:?}: {e}")))?;
			let back: Layout = guard("deserialize", || serde_cbor::from_slice(&bytes))?
				.map_err(|e| Bad::Violation(format!("cannot deserialize {l:?}: {e}")))?;
			if back != *l {
				bad!("{l:?}\nis deserialized as {back:?}")
			}
			cov.eval();
			if let Ok(j) = serde_json::to_string(l) {
				let back: Layout = guard("deserialize", || serde_json::from_str(&j))?
					.map_err(|e| Bad::Violation(format!("cannot deserialize {j}: {e}")))?;
				if back != *l {
					bad!("{l:?}\nis deserialized as {back:?} from JSON")
				}
				cov.hit("JSON round trips");
			} else if l.extra_properties().is_empty() && !matches!(l, Layout::Product(_)) {
				bad!("cannot serialize {l:?} into JSON")
			}
		}
		cov.observe(&(t.to_string(), format!("{l:?}")));
	}
	// order.
	if defs.len() >= 3 {
		let mut x: Vec<Layout> = defs.iter().map(|d| d.2.clone()).collect();
		for _ in 0..3 {
			let i = rng.below(x.len());
			let t = tweak(rng, &x[i]);
			x.push(t);
		}
		let mut a = x.clone();
		a.sort();
		rng.shuffle(&mut x);
		x.sort();
		if a != x || a.windows(2).any(|w| w[0] > w[1]) {
			bad!("the order of layouts is not total")
		}
	}
	// histories of insertions.
	let mut real: Layouts = Layouts::default();
	let mut model: BTreeMap<Term, Layout> = BTreeMap::new();
	let pool: Vec<Term> = defs
		.iter()
		.map(|d| d.1.clone())
		.chain([iri("urn:a"), iri("urn:b"), blank("a"), lit("a", &format!("{XSD}string"))])
		.collect();
	let mut log = String::new();
	for _ in 0..rng.range(1, 12) {
		let id = rng.pick(&pool).clone();
		let l = match defs.is_empty() {
			true => Layout::Always,
			false => rng.pick(&defs).2.clone(),
		};
		log.push_str(&format!("insert {id}\n"));
		let old = model.insert(id.clone(), l.clone());
		let (r, prev) = if rng.pct(50) {
			real.insert(id.clone(), l)
		} else {
			let mut seen = None;
			let r = real.insert_with(id.clone(), |r| {
				seen = Some(r.clone());
				l
			});
			if seen.as_ref().map(|r| r.id()) != Some(&id) {
				bad!("insert_with gave {seen:?} instead of {id}")
			}
			r
		};
		if *r.id() != id || prev != old {
			bad!("{log}returned {r:?} and {prev:?}\nexpected {old:?}")
		}
		cov.eval();
	}
	let listed: Vec<(Term, Layout)> = real.iter().map(|(r, l)| (r.id().clone(), l.clone())).collect();
	let expected: Vec<(Term, Layout)> = model.clone().into_iter().collect();
	let by_ref: Vec<(Term, Layout)> = (&real).into_iter().map(|(r, l)| (r.id().clone(), l.clone())).collect();
	if listed != expected || by_ref != expected {
		bad!("{log}iter: {listed:?}\nexpected {expected:?}")
	}
	for id in &pool {
		let r = Ref::<LayoutType>::new(id.clone());
		let e = model.get(id);
		if real.layout(id) != e || real.get(&r) != e || LayoutRegistry::get(&real, &r) != e || real.contains(&r) != e.is_some() {
			bad!("{log}{id} is {:?}\nexpected {e:?}", real.layout(id))
		}
		// references.
		let s = Ref::<ProductLayoutType>::new(id.clone());
		let back: Ref<LayoutType> = s.clone().cast();
		let other = rng.pick(&pool);
		let o = Ref::<LayoutType>::new(other.clone());
		if back != r
			|| s.casted::<LayoutType>() != r
			|| *s.as_casted::<LayoutType>() != r
			|| *Ref::<LayoutType>::new_ref(id) != r
			|| r.clone().into_id() != *id
			|| r.to_string() != id.to_string()
			|| r.clone().map(|t| t.to_string()).id() != &id.to_string()
			|| hash(&r) != hash(&back)
			|| r.cmp(&o) != id.cmp(other)
			|| (r == o) != (id == other)
			|| (r.partial_cmp(&o)) != id.partial_cmp(other)
		{
			bad!("reference to {id}: {r:?}")
		}
		let j = serde_json::to_value(&r).map_err(|e| Bad::Violation(e.to_string()))?;
		if j != serde_json::to_value(id).unwrap() || serde_json::from_value::<Ref<LayoutType>>(j).ok() != Some(r) {
			bad!("serialized reference to {id}")
		}
	}
	let owned: Vec<(Term, Layout)> = real.into_iter().map(|(r, l)| (r.into_id(), l)).collect();
	if owned != expected {
		bad!("{log}into_iter: {owned:?}\nexpected {expected:?}")
	}
	pre_built(rng, cov, &defs.iter().map(|d| &d.2).collect::<Vec<_>>(), &pool)
}

/// Pre-built layout that builds `l`.
fn pre_build(l: &Layout) -> Option<tl::abs::Layout<Term>> {
	use tl::abs::layout as al;
	use tl::layout::DataLayout as D;
	let data = |d| Some(al::Layout::Literal(al::LiteralLayout::Data(d)));
	match l {
		Layout::Never => Some(al::Layout::Never),
		Layout::Always => Some(al::Layout::Always),
		Layout::Product(p) => Some(al::Layout::Product(p.clone())),
		Layout::List(l) => Some(al::Layout::List(l.clone())),
		Layout::Sum(s) => Some(al::Layout::Sum(s.clone())),
		Layout::Literal(LiteralLayout::Id(i)) => match &i.pattern {
			Some(_) => None,
			None => Some(al::Layout::Literal(al::LiteralLayout::Id(al::IdLayout {
				input: i.input,
				intro: i.intro,
				dataset: i.dataset.clone(),
				pattern: None,
				resource: i.resource.clone(),
				properties: i.extra_properties.clone(),
			}))),
		},
		Layout::Literal(LiteralLayout::Data(d)) => match d {
			D::Unit(l) => data(al::DataLayout::Unit(l.clone())),
			D::Boolean(l) => data(al::DataLayout::Boolean(l.clone())),
			D::Number(l) => data(al::DataLayout::Number(l.clone())),
			D::ByteString(l) => data(al::DataLayout::ByteString(l.clone())),
			D::TextString(t) => match &t.pattern {
				Some(_) => None,
				None => data(al::DataLayout::TextString(al::TextStringLayout {
					input: t.input,
					intro: t.intro,
					pattern: None,
					dataset: t.dataset.clone(),
					resource: t.resource.clone(),
					datatype: t.datatype.clone(),
					properties: t.extra_properties.clone(),
				})),
			},
		},
	}
}

/// Histories of a layout builder.
fn pre_built(rng: &mut Rng, cov: &mut Cov, defs: &[&Layout], pool: &[Term]) -> Case {
	let mut real = match rng.pct(50) {
		true => tl::abs::Builder::<Term>::new(),
		false => tl::abs::Builder::default(),
	};
	let mut model: BTreeMap<Term, Layout> = BTreeMap::new();
	let mut log = String::new();
	for _ in 0..rng.range(1, 12) {
		let id = rng.pick(pool).clone();
		let l = match defs.is_empty() || rng.pct(10) {
			true => Layout::Never,
			false => (*rng.pick(defs)).clone(),
		};
		let (l, pre) = match pre_build(&l) {
			Some(p) => (l, p),
			None => (Layout::Always, tl::abs::Layout::Always),
		};
		cov.eval();
		match rng.below(4) {
			0 | 1 => {
				let mut seen = Some(id.clone());
				let (r, prev) = match rng.pct(50) {
					true => real.insert(id.clone(), pre),
					false => real.insert_with(id.clone(), |r| {
						seen = Some(r.id().clone());
						pre
					}),
				};
				log.push_str(&format!("insert {id}\n"));
				let old = model.insert(id.clone(), l);
				let prev = prev.map(|l| l.build());
				if *r.id() != id || seen != Some(id) || prev != old {
					bad!("{log}builder returned {r:?} and {prev:?} (called with {seen:?})\nexpected {old:?}")
				}
			}
			2 => {
				log.push_str(&format!("get or insert {id}\n"));
				let mut seen = None;
				let got = real
					.get_or_insert_with(Ref::new(id.clone()), |r| {
						seen = Some(r.id().clone());
						pre
					})
					.build();
				let absent = !model.contains_key(&id);
				let e = model.entry(id.clone()).or_insert(l);
				if got != *e || seen != absent.then_some(id) {
					bad!("{log}builder returned {got:?} (called with {seen:?})\nexpected {e:?}")
				}
			}
			_ => {
				// building does not consume anything.
				let got: Vec<(Term, Layout)> = real.build().into_iter().map(|(r, l)| (r.into_id(), l)).collect();
				let e: Vec<(Term, Layout)> = model.clone().into_iter().collect();
				if got != e {
					bad!("{log}built {got:?}\nexpected {e:?}")
				}
			}
		}
	}
	let got: Vec<(Term, Layout)> = real.build().into_iter().map(|(r, l)| (r.into_id(), l)).collect();
	let e: Vec<(Term, Layout)> = model.into_iter().collect();
	if got != e {
		bad!("{log}built {got:?}\nexpected {e:?}")
	}
	cov.hit("builder history");
	Ok(())
}
