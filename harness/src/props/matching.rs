//! Pattern matching against brute force, and invariance of the results.
use super::distill::{data, describe, scene, value_size};
use crate::gen::*;
use crate::real::*;
use crate::refc::*;
use crate::refhy::{match_all, Q};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::{Id, Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts as tl;
use treeldr_layouts::matching::Matching;
use treeldr_layouts::{pattern::Substitution, Pattern};

pub static PROPS: &[Prop] = &[
	Prop {
		id: "P07",
		rule: "random datasets (default and named graphs, literals, self loops), patterns over up to 5 variables with repetitions, and partial substitutions; non trivial: at least 2 patterns and a matching; distinct by (dataset, patterns, substitution)",
		quick: 250_000,
		thorough: 10_000_000,
		hang: 60,
		threads: 8,
		run: p07,
	},
	Prop {
		id: "P08",
		rule: "random layouts and datasets, hydrated again after reordering the insertions, renaming the blank nodes, adding unrelated quads and layouts; dehydrated again with other blank node generators; non trivial: the value has at least 2 nodes; distinct by (layouts, dataset, inputs)",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p08,
	},
];

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) };
}

fn term(rng: &mut Rng, n: usize) -> Term {
	match rng.below(n) {
		0 => blank("x"),
		1 => blank("y"),
		2 => lit("a", &format!("{XSD}string")),
		i => iri(&format!("{EX}t{i}")),
	}
}

fn real_pattern(p: &RPat) -> Pattern<Term> {
	match p {
		RPat::Var(x) => Pattern::Var(*x as u32),
		RPat::Term(t) => Pattern::Resource(t.clone()),
	}
}

fn p07(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let n = rng.range(3, 7);
	let pred = |rng: &mut Rng| {
		if rng.pct(85) {
			iri(&format!("{EX}t{}", rng.range(3, 4)))
		} else {
			term(rng, n)
		}
	};
	let vars = rng.range(1, 5);
	let pat = |rng: &mut Rng, v: u32| {
		if rng.pct(v) {
			RPat::Var(rng.below(vars))
		} else {
			RPat::Term(term(rng, n))
		}
	};
	let patterns: Vec<RQuad> = (0..*rng.pick(&[0, 1, 1, 2, 2, 3, 4]))
		.map(|_| {
			RQuad(
				pat(rng, 75),
				if rng.pct(30) { pat(rng, 100) } else { RPat::Term(pred(rng)) },
				pat(rng, 75),
				if rng.pct(30) { Some(pat(rng, 70)) } else { None },
			)
		})
		.collect();
	// Most of the dataset is made of instances of the patterns.
	let mut data: Vec<Q> = Vec::new();
	for _ in 0..rng.range(0, 4) {
		let s: Vec<Term> = (0..vars).map(|_| term(rng, n)).collect();
		let get = |p: &RPat| match p {
			RPat::Var(x) => s[*x].clone(),
			RPat::Term(t) => t.clone(),
		};
		for p in &patterns {
			if rng.pct(92) {
				data.push((get(&p.0), get(&p.1), get(&p.2), p.3.as_ref().map(get)));
			}
		}
	}
	for _ in 0..rng.below(8) {
		data.push((
			term(rng, n),
			pred(rng),
			term(rng, n),
			if rng.pct(60) { None } else { Some(term(rng, n)) },
		));
	}
	data.sort();
	data.dedup();
	settle(&mut data);
	let subst: Vec<Option<Term>> = (0..vars)
		.map(|_| if rng.pct(8) { Some(term(rng, n)) } else { None })
		.collect();
	cov.case = format!(
		"dataset:\n{}patterns: {patterns:?}\nsubstitution: {subst:?}\n",
		print_data(&data)
	);
	let mut budget = 2_000_000;
	let Some(expected) = match_all(&data, &subst, &patterns, None, &mut budget) else {
		return Err(Bad::Skip("reference budget"));
	};
	let ds = dataset(&data);
	let real_patterns: Vec<Quad<Pattern<Term>>> = patterns
		.iter()
		.map(|p| {
			Quad(
				real_pattern(&p.0),
				real_pattern(&p.1),
				real_pattern(&p.2),
				p.3.as_ref().map(real_pattern),
			)
		})
		.collect();
	let start = || {
		let mut s = Substitution::new();
		for t in &subst {
			s.push(t.clone());
		}
		Matching::new(
			&ds,
			s,
			real_patterns.iter().map(|q| {
				Quad(
					q.0.as_ref(),
					q.1.as_ref(),
					q.2.as_ref(),
					q.3.as_ref().map(|g| g.as_ref()),
				)
			}),
		)
	};
	let read = |s: &Substitution<Term>| -> Vec<Option<Term>> {
		(0..s.len()).map(|i| s.get(i).cloned()).collect()
	};
	let found: Vec<Vec<Option<Term>>> =
		guard("matching", || start().take(100_000).map(|s| read(&s)).collect())?;
	cov.eval();
	let set: BTreeSet<_> = found.iter().cloned().collect();
	if let Some(s) = expected.iter().find(|s| !set.contains(*s)) {
		return Err(Bad::Violation(format!("the matching misses {s:?}")));
	}
	if let Some(s) = set.iter().find(|s| !expected.contains(*s)) {
		return Err(Bad::Violation(format!("the matching wrongly includes {s:?}")));
	}
	if found.len() != set.len() {
		return Err(Bad::Violation(format!(
			"the matching includes some substitution several times: {found:?}"
		)));
	}
	let unique = guard("into_unique", || start().into_unique())?;
	match (expected.len(), unique) {
		(0, Ok(None)) => (),
		(1, Ok(Some(s))) if read(&s) == *expected.first().unwrap() => (),
		(n, Err(tl::matching::Error::Ambiguity)) if n > 1 => (),
		(n, r) => {
			return Err(Bad::Violation(format!(
				"unexpected result of `into_unique` for {n} matchings: {:?}",
				r.map(|s| s.map(|s| read(&s))).map_err(|_| "error")
			)))
		}
	}
	let unique = guard("into_required_unique", || start().into_required_unique())?;
	match (expected.len(), unique) {
		(0, Err(tl::matching::Error::Empty)) => (),
		(1, Ok(s)) if read(&s) == *expected.first().unwrap() => (),
		(n, Err(tl::matching::Error::Ambiguity)) if n > 1 => (),
		(n, r) => {
			return Err(Bad::Violation(format!(
				"unexpected result of `into_required_unique` for {n} matchings: {:?}",
				r.map(|s| read(&s)).map_err(|_| "error")
			)))
		}
	}
	// one quad against one pattern.
	for (p, real) in patterns.iter().zip(&real_patterns) {
		let bound: Vec<Term> = (0..vars)
			.map(|i| match &subst[i] {
				Some(t) if rng.pct(80) => t.clone(),
				_ => term(rng, n),
			})
			.collect();
		let value = |rng: &mut Rng, p: &RPat| match p {
			RPat::Var(x) if rng.pct(90) => bound[*x].clone(),
			RPat::Term(t) if rng.pct(90) => t.clone(),
			_ => term(rng, n),
		};
		let q: Q = (
			value(rng, &p.0),
			value(rng, &p.1),
			value(rng, &p.2),
			p.3.as_ref().map(|g| value(rng, g)),
		);
		let mut expected = Some(subst.clone());
		for (p, t) in [(Some(&p.0), Some(&q.0)), (Some(&p.1), Some(&q.1)), (Some(&p.2), Some(&q.2)), (p.3.as_ref(), q.3.as_ref())] {
			let (Some(p), Some(t), Some(e)) = (p, t, &mut expected) else {
				continue;
			};
			let ok = match p {
				RPat::Term(s) => s == t,
				RPat::Var(x) => *e[*x].get_or_insert_with(|| t.clone()) == *t,
			};
			if !ok {
				expected = None
			}
		}
		let mut s = Substitution::new();
		if s.intro(vars as u32) != 0 || s.len() != vars as u32 || s.is_empty() {
			bad!("introduced {vars} variables in an empty substitution: {} variables", s.len())
		}
		for (i, t) in subst.iter().enumerate() {
			if s.set(i as u32, t.clone()).is_some() {
				bad!("an introduced variable is bound")
			}
		}
		let found = guard("with_quad", || {
			s.with_quad(
				Quad(real.0.as_ref(), real.1.as_ref(), real.2.as_ref(), real.3.as_ref().map(|g| g.as_ref())),
				Quad(&q.0, &q.1, &q.2, q.3.as_ref()),
			)
		})?;
		cov.eval();
		cov.hit(if expected.is_some() { "one quad matches" } else { "one quad does not match" });
		if found.as_ref().map(read) != expected {
			bad!("the quad {q:?} matched with {p:?} gives {:?}, expected {expected:?}", found.as_ref().map(read))
		}
		if read(&s) != subst {
			bad!("the substitution is changed by `with_quad`")
		}
		for p in [&real.0, &real.1, &real.2] {
			let e = match p {
				Pattern::Var(x) => match &subst[*x as usize] {
					Some(t) => Pattern::Resource(t.clone()),
					None => Pattern::Var(*x),
				},
				p => p.clone(),
			};
			let a = guard("apply", || p.apply(&s))?;
			if a != e {
				bad!("{p:?} under the substitution {subst:?} is {a:?}")
			}
		}
	}
	cov.hit(match expected.len() {
		0 => "no matching",
		1 => "one matching",
		2..=9 => "2 to 9 matchings",
		_ => "10 matchings or more",
	});
	if patterns.len() >= 2 && !expected.is_empty() {
		cov.observe(&cov.case.clone());
		let case = cov.case.clone();
		cov.sample(|| format!("{case}matchings: {}", expected.len()));
	}
	Ok(())
}

fn renamed(t: &Term, m: &BTreeMap<String, Term>) -> Term {
	match t {
		Term::Id(Id::Blank(b)) => m.get(b.as_str()).cloned().unwrap_or(t.clone()),
		t => t.clone(),
	}
}

fn p08(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let s = scene(rng, cov, false)?;
	let docs = cov.case.clone();
	let mut vars_as_predicates = false;
	let mut mentions_blank = false;
	for l in s.reg.lays.values() {
		let mut all: Vec<&RQuad> = Vec::new();
		if let Some(h) = l.head() {
			all.extend(&h.dataset);
		}
		for c in l.comps() {
			all.extend(&c.dataset);
		}
		for q in all {
			vars_as_predicates |= matches!(q.1, RPat::Var(_));
		}
	}
	for t in mentioned(&s.reg) {
		mentions_blank |= matches!(t, Term::Id(Id::Blank(_)));
	}
	for _ in 0..2 {
		cov.case = docs.clone();
		let fit = rng.pct(75);
		let Some((data, graph, inputs)) = data(rng, &s, fit) else {
			continue;
		};
		describe(cov, &data, &graph, &inputs);
		let run = |layouts: &tl::Layouts, data: &[Q], graph: &Option<Term>, inputs: &[Term]| {
			let ds = dataset(data);
			guard("hydrate", || {
				tl::hydrate_with(&(), &(), layouts, &ds, graph.as_ref(), &s.root_ref, inputs)
			})
			.map(|r| r.map_err(|e| e.to_string()))
		};
		let base = run(&s.layouts, &data, &graph, &inputs)?;
		let check = |what: &str, cov: &mut Cov, r: Result<tl::TypedValue, String>| -> Case {
			cov.eval();
			match (&base, &r) {
				(Ok(a), Ok(b)) if a == b => {
					cov.hit(format!("same value: {what}"));
					Ok(())
				}
				(Err(_), Err(_)) => {
					cov.hit(format!("still an error: {what}"));
					Ok(())
				}
				_ => Err(Bad::Violation(format!(
					"{what}: hydrate returned {r:?}\ninstead of {base:?}"
				))),
			}
		};
		// order of the insertions.
		let mut shuffled = data.clone();
		rng.shuffle(&mut shuffled);
		let r = run(&s.layouts, &shuffled, &graph, &inputs)?;
		check("other insertion order", cov, r)?;
		// duplicated insertions.
		let mut twice = data.clone();
		twice.extend(data.iter().rev().cloned());
		let r = run(&s.layouts, &twice, &graph, &inputs)?;
		check("quads inserted twice", cov, r)?;
		// blank nodes.
		if !mentions_blank {
			let mut names = BTreeSet::new();
			let mut visit = |t: &Term| {
				if let Term::Id(Id::Blank(b)) = t {
					names.insert(b.as_str().to_string());
				}
			};
			for q in &data {
				visit(&q.0);
				visit(&q.1);
				visit(&q.2);
				if let Some(g) = &q.3 {
					visit(g)
				}
			}
			inputs.iter().for_each(&mut visit);
			let names: Vec<String> = names.into_iter().collect();
			let mut order: Vec<usize> = (0..names.len()).collect();
			rng.shuffle(&mut order);
			let m: BTreeMap<String, Term> = names
				.into_iter()
				.zip(order)
				.map(|(n, i)| (n, blank(&format!("z{i}"))))
				.collect();
			let data2: Vec<Q> = data
				.iter()
				.map(|q| {
					(
						renamed(&q.0, &m),
						renamed(&q.1, &m),
						renamed(&q.2, &m),
						q.3.as_ref().map(|g| renamed(g, &m)),
					)
				})
				.collect();
			let inputs2: Vec<Term> = inputs.iter().map(|t| renamed(t, &m)).collect();
			let r = run(&s.layouts, &data2, &graph, &inputs2)?;
			check("blank nodes renamed", cov, r)?;
		}
		// unrelated quads.
		if !vars_as_predicates {
			let mut more = data.clone();
			let pool: Vec<Term> = data
				.iter()
				.flat_map(|q| [q.0.clone(), q.2.clone()])
				.chain(inputs.iter().cloned())
				.chain([iri(&format!("{EX}unrelated"))])
				.collect();
			for i in 0..rng.range(1, 5) {
				more.push((
					rng.pick(&pool).clone(),
					iri(&format!("{EX}unrelated{i}")),
					rng.pick(&pool).clone(),
					if rng.pct(70) { graph.clone() } else { Some(rng.pick(&pool).clone()) },
				));
			}
			rng.shuffle(&mut more);
			settle(&mut more);
			let r = run(&s.layouts, &more, &graph, &inputs)?;
			check("unrelated quads", cov, r)?;
		}
		// unrelated layouts.
		let mut docs2 = s.docs.clone();
		docs2.push(format!(
			r#"{{"type":"record","id":"{EX}Unrelated","fields":{{"k":{{"value":{{"layout":{{"type":"id"}}}},"property":"{EX}p0"}}}}}}"#
		));
		let (layouts2, _) = guard("building", || build(&docs2))?
			.map_err(|e| Bad::Violation(format!("adding a layout makes the build fail: {e}")))?;
		let r = run(&layouts2, &data, &graph, &inputs)?;
		check("unrelated layouts", cov, r)?;

		if let Ok(v) = &base {
			let untyped = v.clone().into_untyped();
			if value_size(&untyped) >= 2 {
				cov.observe(&cov.case.clone());
				let case = cov.case.clone();
				cov.sample(|| format!("{case}value: {untyped:?}"));
			}
			// dehydration does not depend on how blank nodes are generated.
			let n = s.reg.lays[&s.root].input_count().unwrap_or(1) as u32;
			let a = guard("dehydrate", || {
				tl::distill::dehydrate(
					&s.layouts,
					&untyped,
					&s.root_ref,
					tl::distill::de::Options::default().with_input_count(n),
				)
			})?;
			let b = guard("dehydrate", || {
				tl::distill::dehydrate(
					&s.layouts,
					&untyped,
					&s.root_ref,
					tl::distill::de::Options::default()
						.with_input_count(n)
						.with_generator(rdf_types::generator::Blank::new_with_prefix("zz".into())),
				)
			})?;
			cov.eval();
			match (a, b) {
				(Ok((d1, s1)), Ok((d2, s2))) => {
					let anon = |t: &Term| match t {
						Term::Id(Id::Blank(b)) => !b.as_str().starts_with("_:input"),
						_ => false,
					};
					if s1 != s2 || !crate::refde::isomorphic(&quads(&d1), &quads(&d2), anon) {
						return Err(Bad::Violation(format!(
							"dehydrate depends on the generator:\n{}\n{}",
							print_data(&quads(&d1)),
							print_data(&quads(&d2))
						)));
					}
					cov.hit("same dataset with another generator");
				}
				(Err(_), Err(_)) => cov.hit("still an error: other generator"),
				(a, b) => {
					return Err(Bad::Violation(format!(
						"dehydrate depends on the generator: {:?} {:?}",
						a.map(|_| ()),
						b.map(|_| ())
					)))
				}
			}
		}
	}
	Ok(())
}
