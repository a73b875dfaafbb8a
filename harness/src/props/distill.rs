//! Hydration and dehydration against the reference model.
use crate::ast::*;
use crate::gen::*;
use crate::real::*;
use crate::refc::*;
use crate::refde;
use crate::refhy::{HErr, Hy, Q};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::Term;
use std::collections::BTreeMap;
use treeldr_layouts as tl;
use treeldr_layouts::{Layouts, Value};

pub static PROPS: &[Prop] = &[
	Prop {
		id: "P01",
		rule: "random layouts (all kinds, nested, recursive, several inputs, graphs, shadowing), values and datasets (reference dehydration of a value, mutated); non trivial: the reference accepts and the hydrated value has at least 2 nodes; distinct by (layouts, dataset, inputs)",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p01,
	},
	Prop {
		id: "P02",
		rule: "random layouts and datasets made to not fit (removed, duplicated, moved or altered quads, wrong inputs, unknown layouts, cyclic data); non trivial: the reference rejects; distinct by (layouts, dataset, inputs)",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p02,
	},
	Prop {
		id: "P03",
		rule: "random layouts and values that fit them; non trivial: the reference dehydration yields at least 2 quads; distinct by (layouts, value)",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p03,
	},
	Prop {
		id: "P04",
		rule: "random layouts and values with perturbations (wrong kinds, unknown or missing keys, out of range numbers, wrong lengths, several or no variants, conflicting identifiers); non trivial: the reference rejects; distinct by (layouts, value)",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p04,
	},
	Prop {
		id: "P05",
		rule: "random layouts whose components use distinct properties, and values; non trivial: the value has at least 3 nodes and dehydrates; distinct by (layouts, value)",
		quick: 40_000,
		thorough: 2_000_000,
		hang: 60,
		threads: 8,
		run: p05,
	},
];

pub struct Scene {
	pub docs: Vec<String>,
	pub reg: RReg,
	pub root: Key,
	pub layouts: Layouts,
	pub root_ref: LRefT,
	pub map: BTreeMap<Key, Term>,
}

/// Generates layouts, compiled with the reference and with TreeLDR.
pub fn scene(rng: &mut Rng, cov: &mut Cov, strict: bool) -> Result<Scene, Bad> {
	let (lays, _) = Gen::library(rng, strict);
	scene_of(rng, cov, lays)
}

pub fn scene_of(rng: &mut Rng, cov: &mut Cov, lays: Vec<Lay>) -> Result<Scene, Bad> {
	let docs = documents(rng, &lays);
	scene_from(cov, &lays, docs)
}

pub fn documents(rng: &mut Rng, lays: &[Lay]) -> Vec<String> {
	lays.iter()
		.map(|l| {
			let mut j = l.to_json(rng);
			j.shuffle(rng);
			j.print()
		})
		.collect()
}

/// Compiles the layouts with the reference only.
pub fn model_of(cov: &mut Cov, lays: &[Lay], docs: &[String]) -> Result<(RReg, Vec<Key>), Bad> {
	cov.case = format!("layouts:\n{}\n", docs.join("\n"));
	compile(&lays.iter().collect::<Vec<_>>()).map_err(|_| Bad::Skip("layouts with errors"))
}

pub fn scene_from(cov: &mut Cov, lays: &[Lay], docs: Vec<String>) -> Result<Scene, Bad> {
	let (reg, roots) = model_of(cov, lays, &docs)?;
	let (layouts, refs) = guard("building the layouts", || build(&docs))?
		.map_err(|e| Bad::Violation(format!("valid layouts are rejected: {e}")))?;
	let mut km = KeyMap::default();
	for (k, r) in roots.iter().zip(&refs) {
		km.walk("", &reg, &layouts, k, r.id());
	}
	Ok(Scene {
		docs,
		reg,
		root: roots.last().unwrap().clone(),
		layouts,
		root_ref: refs.last().unwrap().clone(),
		map: km.map,
	})
}

pub fn value_size(v: &Value) -> usize {
	match v {
		Value::Literal(_) => 1,
		Value::List(l) => 1 + l.iter().map(value_size).sum::<usize>(),
		Value::Map(m) => 1 + m.values().map(value_size).sum::<usize>(),
	}
}

/// Data to hydrate: dataset, graph and inputs.
pub fn data(rng: &mut Rng, s: &Scene, fit: bool) -> Option<(Vec<Q>, Option<Term>, Vec<Term>)> {
	data_for(rng, &s.reg, &s.root, fit)
}

pub fn data_for(rng: &mut Rng, reg: &RReg, root: &Key, fit: bool) -> Option<(Vec<Q>, Option<Term>, Vec<Term>)> {
	data_of(rng, reg, root, fit, &mut |rng| {
		let mut vg = VGen {
			reg,
			noise: 1,
			unique: 0,
			strict: false,
			fuel: 60,
		};
		vg.value(rng, root, 4)
	})
}

/// Data made from the dehydration of the given values.
pub fn data_of(
	rng: &mut Rng,
	reg: &RReg,
	root: &Key,
	fit: bool,
	value: &mut dyn FnMut(&mut Rng) -> Value,
) -> Option<(Vec<Q>, Option<Term>, Vec<Term>)> {
	let mut seen = BTreeMap::new();
	let mut data = Vec::new();
	let mut subjects: Option<Vec<Term>> = None;
	let n = reg.lays.get(root).and_then(|l| l.input_count()).unwrap_or(1);
	let values = *rng.pick(&[1, 1, 1, 2, 3]);
	for i in 0..values {
		for _ in 0..4 {
			let v = value(rng);
			match refde::dehydrate(reg, root, &v, n, &mut seen) {
				Ok(d) => {
					let iris = rng.pct(15);
					let (q, sub) = d.ground(
						|j| {
							if iris {
								iri(&format!("{EX}b{i}x{j}"))
							} else {
								blank(&format!("b{i}x{j}"))
							}
						},
						|j| {
							if j % 2 == 0 {
								blank(&format!("s{i}x{j}"))
							} else {
								iri(&format!("{EX}n{j}"))
							}
						},
					);
					data.extend(q);
					if subjects.is_none() || rng.pct(20) {
						subjects = Some(sub);
					}
					break;
				}
				Err(_) => continue,
			}
		}
		if fit && subjects.is_some() && rng.pct(80) {
			break;
		}
	}
	let mut inputs = subjects.unwrap_or_else(|| {
		(0..n)
			.map(|_| {
				if rng.pct(20) {
					random_literal(rng)
				} else {
					iri(&format!("{EX}n{}", rng.below(4)))
				}
			})
			.collect()
	});
	let pool = mentioned(reg);
	data.sort();
	data.dedup();
	let k = if fit { *rng.pick(&[0, 0, 0, 1, 1, 2]) } else { *rng.pick(&[1, 1, 2, 3, 4, 6]) };
	mutate(rng, &mut data, &pool, k);
	// cyclic structures.
	if rng.pct(if fit { 2 } else { 8 }) {
		let first = iri(&format!("{RDF}first"));
		let rest = iri(&format!("{RDF}rest"));
		let nodes: Vec<Term> = data
			.iter()
			.filter(|q| q.1 == first)
			.map(|q| q.0.clone())
			.collect();
		if !nodes.is_empty() {
			for q in data.iter_mut() {
				if q.1 == rest && rng.pct(40) {
					q.2 = rng.pick(&nodes).clone();
				}
			}
			data.sort();
			data.dedup();
		}
	}
	let graph = if rng.pct(12) {
		let g = iri(&format!("{EX}g{}", rng.below(2)));
		if rng.pct(80) {
			for q in data.iter_mut() {
				if q.3.is_none() {
					q.3 = Some(g.clone())
				}
			}
			data.sort();
			data.dedup();
		}
		Some(g)
	} else {
		None
	};
	if !fit {
		match rng.below(20) {
			0 => inputs.push(iri(&format!("{EX}n0"))),
			1 => {
				inputs.pop();
			}
			2 if !inputs.is_empty() => {
				let i = rng.below(inputs.len());
				inputs[i] = random_literal(rng);
			}
			3 if !inputs.is_empty() => {
				let i = rng.below(inputs.len());
				inputs[i] = iri(&format!("{EX}n{}", rng.below(4)));
			}
			_ => (),
		}
	}
	settle(&mut data);
	if data.len() > 60 {
		return None;
	}
	Some((data, graph, inputs))
}

pub fn describe(cov: &mut Cov, data: &[Q], graph: &Option<Term>, inputs: &[Term]) {
	cov.case.push_str(&format!("dataset:\n{}", print_data(data)));
	cov.case.push_str(&format!(
		"graph: {}\ninputs: {}\n",
		graph.as_ref().map(|g| g.to_string()).unwrap_or("default".into()),
		inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")
	));
}

fn hydration(rng: &mut Rng, cov: &mut Cov, fit: bool) -> Case {
	let s = scene(rng, cov, false)?;
	let rounds = if fit { 3 } else { 4 };
	let docs = cov.case.clone();
	for _ in 0..rounds {
		cov.case = docs.clone();
		let Some((data, graph, inputs)) = data(rng, &s, fit) else {
			continue;
		};
		describe(cov, &data, &graph, &inputs);
		let mut hy = Hy::new(&s.reg, &data);
		let expected = hy.run(&s.root, graph.as_ref(), &inputs);
		match &expected {
			Err(e) if e.contains(&HErr::Budget) => {
				cov.hit("skipped: reference budget");
				continue;
			}
			Err(e) if e.contains(&HErr::Unspecified) => {
				cov.hit("skipped: unspecified");
				continue;
			}
			Err(_) if fit => {
				cov.hit("rejected (not judged here)");
				continue;
			}
			Ok(_) if !fit => {
				cov.hit("accepted (not judged here)");
				continue;
			}
			_ => (),
		}
		cov.hits(&hy.seen);
		let ds = dataset(&data);
		let real = guard("hydrate", || {
			if graph.is_none() && rng.pct(50) {
				tl::hydrate(&s.layouts, &ds, &s.root_ref, &inputs)
			} else {
				tl::hydrate_with(&(), &(), &s.layouts, &ds, graph.as_ref(), &s.root_ref, &inputs)
			}
		})?;
		cov.eval();
		match (&expected, &real) {
			(Ok(r), Ok(v)) => {
				if !same_value(v, r, &s.map) {
					return Err(Bad::Violation(format!(
						"hydrate returned {v:?}\nexpected {r:?}"
					)));
				}
				let untyped = v.clone().into_untyped();
				if value_size(&untyped) >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}value: {untyped:?}"));
				}
			}
			(Err(e), Err(f)) => {
				if !justified_hy(f, e, &s.map) {
					return Err(Bad::Violation(format!(
						"hydrate failed with {f:?}\nexpected one of {e:?}"
					)));
				}
				for e in e {
					let k = format!("{e:?}");
					let k = k.split(['(', ' ']).next().unwrap_or("").to_string();
					cov.hit(format!("error {k}"));
				}
				cov.observe(&cov.case.clone());
				let case = cov.case.clone();
				cov.sample(|| format!("{case}error: {f}"));
			}
			(Ok(r), Err(e)) => {
				return Err(Bad::Violation(format!(
					"hydrate failed with {e:?}\nexpected {r:?}"
				)))
			}
			(Err(e), Ok(v)) => {
				return Err(Bad::Violation(format!(
					"hydrate returned {v:?}\nexpected one of the errors {e:?}"
				)))
			}
		}
	}
	Ok(())
}

fn p01(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	hydration(rng, cov, true)
}

fn p02(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	hydration(rng, cov, false)
}

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) };
}

pub fn is_anon(t: &Term) -> bool {
	match t {
		Term::Id(rdf_types::Id::Blank(b)) => !b.as_str().starts_with("_:input"),
		_ => false,
	}
}

fn dehydration(rng: &mut Rng, cov: &mut Cov, fit: bool) -> Case {
	let s = scene(rng, cov, false)?;
	let docs = cov.case.clone();
	for _ in 0..4 {
		cov.case = docs.clone();
		let mut vg = VGen {
			reg: &s.reg,
			noise: if fit { 0 } else { 6 },
			unique: 0,
			strict: false,
			fuel: 60,
		};
		let value = vg.value(rng, &s.root, 4);
		let n = *rng.pick(&[1, 1, 1, 0, 2]);
		cov.case.push_str(&format!("value: {value:?}\ndefault inputs: {n}\n"));
		let mut seen = BTreeMap::new();
		let expected = refde::dehydrate(&s.reg, &s.root, &value, n, &mut seen);
		match &expected {
			Err(e) if e.contains(&refde::DErr::Budget) => {
				cov.hit("skipped: reference budget");
				continue;
			}
			Err(_) if fit => {
				cov.hit("rejected (not judged here)");
				continue;
			}
			Ok(_) if !fit => {
				cov.hit("accepted (not judged here)");
				continue;
			}
			_ => (),
		}
		cov.hits(&seen);
		let mut options = tl::distill::de::Options::default();
		if n != 1 || rng.pct(30) {
			options = options.with_input_count(n as u32);
		}
		// terms of the resources that get none from the value.
		let own = rng.pct(25);
		let prefix = if rng.pct(25) { "anon" } else { "" };
		if own {
			options = options.with_input_term_generator(|i| iri(&format!("urn:input:{i}")));
			cov.hit("input term generator");
		}
		let input = |i: usize| match own {
			true => iri(&format!("urn:input:{i}")),
			false => blank(&format!("input{i}")),
		};
		let real = guard("dehydrate", || match prefix {
			"" => tl::distill::dehydrate(&s.layouts, &value, &s.root_ref, options),
			p => tl::distill::dehydrate(
				&s.layouts,
				&value,
				&s.root_ref,
				options.with_generator(rdf_types::generator::Blank::new_with_prefix(p.into())),
			),
		})?;
		cov.eval();
		match (expected, real) {
			(Ok(e), Ok((ds, subjects))) => {
				let (eq, es) = e.ground(|i| blank(&format!("anon{i}")), input);
				let rq = quads(&ds);
				if rq.iter().flat_map(|q| [&q.0, &q.1, &q.2].into_iter().chain(&q.3)).any(|t| {
					matches!(t, Term::Id(rdf_types::Id::Blank(b)) if is_anon(t) && !b.suffix().starts_with(prefix))
				}) {
					bad!("some blank node identifiers are not made by the generator:\n{}", print_data(&rq))
				}
				if subjects != es {
					return Err(Bad::Violation(format!(
						"dehydrate returned subjects {subjects:?}\nexpected {es:?}"
					)));
				}
				if !refde::isomorphic(&eq, &rq, is_anon) {
					return Err(Bad::Violation(format!(
						"dehydrate returned\n{}expected\n{}",
						print_data(&rq),
						print_data(&eq)
					)));
				}
				if rq.len() >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}dataset:\n{}", print_data(&rq)));
				}
			}
			(Err(e), Err(f)) => {
				if !justified_de(&f, &e, &s.map) {
					return Err(Bad::Violation(format!(
						"dehydrate failed with {f:?}\nexpected one of {e:?}"
					)));
				}
				for e in e {
					let k = format!("{e:?}");
					let k = k.split(['(', ' ']).next().unwrap_or("").to_string();
					cov.hit(format!("error {k}"));
				}
				cov.observe(&cov.case.clone());
				let case = cov.case.clone();
				cov.sample(|| format!("{case}error: {f}"));
			}
			(Ok(e), Err(f)) => {
				let (eq, _) = e.ground(
					|i| blank(&format!("anon{i}")),
					|i| blank(&format!("input{i}")),
				);
				return Err(Bad::Violation(format!(
					"dehydrate failed with {f:?}\nexpected\n{}",
					print_data(&eq)
				)));
			}
			(Err(e), Ok((ds, _))) => {
				return Err(Bad::Violation(format!(
					"dehydrate returned\n{}expected one of the errors {e:?}",
					print_data(&quads(&ds))
				)))
			}
		}
	}
	Ok(())
}

fn p03(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	dehydration(rng, cov, true)
}

fn p04(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	dehydration(rng, cov, false)
}

/// Sorts the items of unordered lists.
pub fn canon(reg: &RReg, key: &Key, v: &Value) -> Value {
	canon_at(reg, key, v, &mut Vec::new())
}

fn canon_at(reg: &RReg, key: &Key, v: &Value, sums: &mut Vec<Key>) -> Value {
	let Some(lay) = reg.lays.get(key) else {
		return v.clone();
	};
	match (lay, v) {
		(RLay::Always, _) => Value::unit(),
		(RLay::Record(_, fields), Value::Map(m)) => Value::Map(
			m.iter()
				.map(|(k, v)| {
					(
						k.clone(),
						match fields.get(k) {
							Some(f) => canon(reg, &f.fmt.layout, v),
							None => v.clone(),
						},
					)
				})
				.collect(),
		),
		(RLay::Sum(_, variants), v) => {
			// the variants agree on which lists are unordered only if the
			// value fits a single one of them: use the first that fits.
			if sums.contains(key) {
				return v.clone();
			}
			sums.push(key.clone());
			for (_, c) in variants {
				let mut seen = BTreeMap::new();
				let n = reg.lays.get(&c.fmt.layout).and_then(|l| l.input_count()).unwrap_or(1);
				if refde::dehydrate(reg, &c.fmt.layout, v, n, &mut seen).is_ok() {
					return canon_at(reg, &c.fmt.layout, v, sums);
				}
			}
			v.clone()
		}
		(RLay::Set(_, c), Value::List(l)) => {
			let mut l: Vec<_> = l.iter().map(|v| canon(reg, &c.fmt.layout, v)).collect();
			l.sort();
			Value::List(l)
		}
		(RLay::List { node, .. }, Value::List(l)) => {
			Value::List(l.iter().map(|v| canon(reg, &node.fmt.layout, v)).collect())
		}
		(RLay::Tuple(_, items), Value::List(l)) => Value::List(
			l.iter()
				.enumerate()
				.map(|(i, v)| match items.get(i) {
					Some(c) => canon(reg, &c.fmt.layout, v),
					None => v.clone(),
				})
				.collect(),
		),
		_ => v.clone(),
	}
}

fn p05(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let s = scene(rng, cov, true)?;
	let docs = cov.case.clone();
	for _ in 0..3 {
		cov.case = docs.clone();
		let mut vg = VGen {
			reg: &s.reg,
			noise: 0,
			unique: 0,
			strict: true,
			fuel: 60,
		};
		let value = vg.value(rng, &s.root, 4);
		cov.case.push_str(&format!("value: {value:?}\n"));
		let mut seen = BTreeMap::new();
		match refde::dehydrate(&s.reg, &s.root, &value, 1, &mut seen) {
			Ok(d) if d.lossy => {
				cov.hit("skipped: lossy");
				continue;
			}
			Ok(d) => {
				// is the layout reversible on this value?
				let (mut q, sub) = d.ground(
					|i| blank(&format!("anon{i}")),
					|i| blank(&format!("input{i}")),
				);
				if settle(&mut q) {
					cov.hit("skipped: not indexable");
					continue;
				}
				let mut hy = Hy::new(&s.reg, &q);
				match hy.run(&s.root, None, &sub) {
					Ok(r) => {
						let back = r.untyped();
						if canon(&s.reg, &s.root, &value) != canon(&s.reg, &s.root, &back) {
							cov.hit("skipped: not reversible (another value)");
							continue;
						}
					}
					Err(_) => {
						cov.hit("skipped: not reversible");
						continue;
					}
				}
			}
			Err(_) => {
				cov.hit("skipped: value that does not fit");
				continue;
			}
		}
		let (ds, subjects) = guard("dehydrate", || {
			tl::distill::dehydrate(
				&s.layouts,
				&value,
				&s.root_ref,
				tl::distill::de::Options::default(),
			)
		})?
		.map_err(|e| Bad::Violation(format!("dehydrate failed with {e:?}")))?;
		let text = print_data(&quads(&ds));
		let ds = dataset(&quads(&ds));
		let back = guard("hydrate", || {
			tl::hydrate(&s.layouts, &ds, &s.root_ref, &subjects)
		})?;
		cov.eval();
		cov.hits(&seen);
		let back = match back {
			Ok(b) => b.into_untyped(),
			Err(e) => {
				return Err(Bad::Violation(format!(
					"the dehydrated value cannot be hydrated back: {e:?}\ndataset:\n{text}"
				)))
			}
		};
		let (a, b) = (canon(&s.reg, &s.root, &value), canon(&s.reg, &s.root, &back));
		if a != b {
			return Err(Bad::Violation(format!(
				"the dehydrated value hydrates to {back:?}\ndataset:\n{text}"
			)));
		}
		// And the other way around: dehydrating again gives the same dataset.
		let (ds2, subjects2) = guard("dehydrate", || {
			tl::distill::dehydrate(
				&s.layouts,
				&back,
				&s.root_ref,
				tl::distill::de::Options::default(),
			)
		})?
		.map_err(|e| Bad::Violation(format!("dehydrating the hydrated value failed with {e:?}")))?;
		let (q1, q2) = (
			{
				let mut v: Vec<Q> = ds
					.iter()
					.map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), q.3.cloned()))
					.collect();
				v.sort();
				v
			},
			quads(&ds2),
		);
		if subjects != subjects2 || !refde::isomorphic(&q1, &q2, is_anon) {
			return Err(Bad::Violation(format!(
				"dehydrating the hydrated value gives another dataset\n{}first:\n{}",
				print_data(&q2),
				print_data(&q1)
			)));
		}
		if value_size(&value) >= 3 {
			cov.observe(&cov.case.clone());
			let case = cov.case.clone();
			cov.sample(|| format!("{case}dataset:\n{text}"));
		}
	}
	Ok(())
}
