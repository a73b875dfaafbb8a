//! Layouts shared by several threads.
use super::distill::{data_for, describe, documents, model_of, scene_from};
use crate::gen::*;
use crate::real::*;
use crate::refhy::{HErr, Hy, RVal};
use crate::rng::Rng;
use crate::runner::*;
use rdf_types::Term;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;
use treeldr_layouts as tl;
use treeldr_layouts::{Layouts, Value};

pub static PROPS: &[Prop] = &[Prop {
	id: "P20",
	rule: "random layouts, datasets and values (fitting or not); every conversion is run alone, and by 2 to 6 threads at a time on the same layouts (or each on its own), in different orders, while others build and drop layouts; non trivial: at least 4 conversions, one of which succeeds; distinct by (layouts, jobs, threads). Under the sanitizers: the cases of the other properties, and these",
	quick: 12_000,
	thorough: 400_000,
	hang: 60,
	threads: 3,
	run: p20,
}];

enum Job {
	Hydrate(rdf_types::dataset::IndexedBTreeDataset, Option<Term>, Vec<Term>),
	Dehydrate(Value, u32),
	Build(usize),
	Convert(Value),
}

/// The value in each format.
fn written(v: Value) -> String {
	let json: Option<serde_json::Value> = v.clone().try_into().ok();
	let syntax: Option<json_syntax::Value> = v.clone().try_into().ok();
	let read = json.clone().map(Value::from);
	let cbor: serde_cbor::Value = v.clone().into();
	let bytes = serde_cbor::to_vec(&v).ok();
	format!("{json:?} {syntax:?} {read:?} {cbor:?} {bytes:?}")
}

#[derive(Debug)]
enum Model {
	/// Not judged.
	None,
	Error,
	Success,
	Value(RVal),
}

/// Runs a job, and describes its result.
fn perform(job: &Job, docs: &[String], layouts: &Layouts, root: &LRefT, jobs: &[Job]) -> String {
	match job {
		Job::Hydrate(ds, g, inputs) => {
			let a = tl::hydrate_with(&(), &(), layouts, ds, g.as_ref(), root, inputs);
			match a {
				Ok(v) => {
					let tagged = v.clone().try_into_tagged_serde_cbor(layouts).ok();
					format!("{v:?} {tagged:?} {}", written(v.clone().into_untyped()))
				}
				// Which error is reported is not specified.
				Err(_) => "error".into(),
			}
		}
		Job::Dehydrate(v, n) => {
			let options = tl::distill::de::Options::default().with_input_count(*n);
			match tl::distill::dehydrate(layouts, v, root, options) {
				Ok((ds, subjects)) => format!("{subjects:?}\n{}", print_data(&quads(&ds))),
				Err(_) => "error".into(),
			}
		}
		Job::Convert(v) => written(v.clone()),
		Job::Build(i) => match build(docs) {
			Ok((l, refs)) => match refs.last() {
				Some(root) if *i < jobs.len() => match &jobs[*i] {
					Job::Build(_) => format!("{root:?}"),
					j => perform(j, docs, &l, root, jobs),
				},
				r => format!("{r:?}"),
			},
			Err(e) => e,
		},
	}
}

/// Compiled layouts where some variables are not declared, as a faulty
/// producer of layouts may give.
fn damaged(rng: &mut Rng, layouts: &Layouts) -> Layouts {
	use serde_cbor::Value as C;
	fn walk(rng: &mut Rng, v: &mut C) {
		match v {
			C::Array(a) => a.iter_mut().for_each(|v| walk(rng, v)),
			C::Map(m) => {
				for (k, v) in m.iter_mut() {
					match (k, v) {
						(C::Text(k), C::Integer(i)) if k == "Var" && rng.pct(25) => {
							*i = *rng.pick(&[0, 1, 2, 3, 4, 7, 1000, u32::MAX as i128])
						}
						(C::Text(k), C::Integer(i)) if k == "intro" && rng.pct(20) => {
							*i = rng.below(3) as i128
						}
						(_, v) => walk(rng, v),
					}
				}
			}
			C::Tag(_, v) => walk(rng, v),
			_ => (),
		}
	}
	let mut out = Layouts::new();
	for (id, l) in layouts {
		let mut l2 = l.clone();
		if let Ok(mut v) = serde_cbor::value::to_value(l) {
			walk(rng, &mut v);
			if let Ok(l) = serde_cbor::value::from_value(v) {
				l2 = l
			}
		}
		out.insert(id.id().clone(), l2);
	}
	out
}

/// What several threads observe.
struct Race {
	threads: usize,
	rounds: usize,
	/// Number of conversions started while another one ran.
	overlaps: usize,
	/// Outcomes: thread, job and result.
	outcomes: Vec<(usize, usize, Result<String, String>)>,
}

/// Runs the jobs in several threads started together, each in its own order.
/// The only synchronisation between the threads is at the start.
fn race<S>(
	rng: &mut Rng,
	n: usize,
	start: impl Fn(usize) -> S + Sync,
	run: impl Fn(&S, usize) -> String + Sync,
) -> Race {
	let threads = if small() { 2 } else { rng.range(2, 6) };
	let rounds = if small() { 1 } else { 2 };
	let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
	let barrier = Barrier::new(threads);
	let running = AtomicUsize::new(0);
	let overlaps = AtomicUsize::new(0);
	let mut outcomes = Vec::new();
	std::thread::scope(|scope| {
		let mut handles = Vec::new();
		for (t, seed) in seeds.iter().enumerate() {
			let (barrier, running, overlaps, start, run) = (&barrier, &running, &overlaps, &start, &run);
			let body = move || {
				let mut rng = Rng::derive(20, *seed, t as u64);
				let mut out = Vec::new();
				barrier.wait();
				let mut s = None;
				for _ in 0..rounds {
					let from = rng.below(n);
					for i in 0..n {
						let i = (i + from) % n;
						if rng.pct(30) {
							std::thread::yield_now();
						}
						if running.fetch_add(1, Relaxed) > 0 {
							overlaps.fetch_add(1, Relaxed);
						}
						let r = guard("in a thread", || run(s.get_or_insert_with(|| start(t)), i));
						running.fetch_sub(1, Relaxed);
						let r = match r {
							Err(Bad::Violation(m)) => Err(m),
							Err(Bad::Skip(m)) => Err(m.into()),
							Ok(r) => Ok(r),
						};
						out.push((t, i, r));
					}
				}
				out
			};
			handles.push(std::thread::Builder::new().stack_size(STACK).spawn_scoped(scope, body).unwrap());
		}
		for h in handles {
			outcomes.extend(h.join().unwrap_or_default())
		}
	});
	Race {
		threads,
		rounds,
		overlaps: overlaps.into_inner(),
		outcomes,
	}
}

fn p20(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	// Nothing of the library is used before the threads start, in some cases
	// (which is all the difference in a new process).
	let cold = std::env::var_os("VERIF_COLD").is_some() || rng.pct(30);
	let (lays, _) = Gen::library(rng, false);
	let docs = documents(rng, &lays);
	let (reg, roots) = model_of(cov, &lays, &docs)?;
	let root = roots.last().unwrap();
	let mut jobs = Vec::new();
	// What the reference model says of each job.
	let mut models = Vec::new();
	for i in 0..if small() { 3 } else { 8 } {
		if i % 2 == 0 {
			let fit = rng.pct(70);
			let Some((d, graph, inputs)) = data_for(rng, &reg, root, fit) else {
				continue;
			};
			let mut hy = Hy::new(&reg, &d);
			let model = hy.run(root, graph.as_ref(), &inputs);
			match &model {
				Err(e) if e.contains(&HErr::Budget) => {
					cov.hit("skipped: reference budget");
					continue;
				}
				Err(e) if e.contains(&HErr::Unspecified) => models.push(Model::None),
				Err(_) => models.push(Model::Error),
				Ok(v) => models.push(Model::Value(v.clone())),
			}
			describe(cov, &d, &graph, &inputs);
			jobs.push(Job::Hydrate(dataset(&d), graph, inputs))
		} else {
			let mut vg = VGen {
				reg: &reg,
				noise: if rng.pct(70) { 0 } else { 4 },
				unique: 0,
				strict: false,
				fuel: 60,
			};
			let value = vg.value(rng, root, 4);
			let n = *rng.pick(&[1, 1, 1, 0, 2]);
			let mut seen = Default::default();
			match crate::refde::dehydrate(&reg, root, &value, n, &mut seen) {
				Err(e) if e.contains(&crate::refde::DErr::Budget) => {
					cov.hit("skipped: reference budget");
					continue;
				}
				Err(_) => models.push(Model::Error),
				Ok(_) => models.push(Model::Success),
			}
			cov.case.push_str(&format!("value: {value:?}\ndefault inputs: {n}\n"));
			let other = rng.pct(30).then(|| vg.any(rng, 3));
			jobs.push(Job::Dehydrate(value, n as u32));
			if let Some(v) = other {
				models.push(Model::None);
				cov.case.push_str(&format!("other value: {v:?}\n"));
				jobs.push(Job::Convert(v));
			}
		}
	}
	let n = jobs.len();
	if n == 0 {
		return Err(Bad::Skip("no job"));
	}
	jobs.push(Job::Build(rng.below(n)));
	let mut races = Vec::new();
	if cold {
		let start = |_| build(&docs);
		races.push(race(rng, jobs.len(), start, |s, i| match s {
			Ok((layouts, refs)) => perform(&jobs[i], &docs, layouts, refs.last().unwrap(), &jobs),
			Err(e) => format!("layouts rejected: {e}"),
		}));
		cov.hit("races on layouts built by each thread");
	}
	let case = cov.case.clone();
	let s = scene_from(cov, &lays, docs)?;
	cov.case = case;
	if !cold || rng.pct(10) {
		races.push(race(rng, jobs.len(), |_| (), |_, i| perform(&jobs[i], &s.docs, &s.layouts, &s.root_ref, &jobs)));
		cov.hit("races on shared layouts");
	}
	// What happened before in this process does not matter.
	for (i, (j, m)) in jobs.iter().zip(&models).enumerate() {
		let (what, ok) = match j {
			Job::Hydrate(ds, g, inputs) => {
				let r = guard("hydrate", || {
					tl::hydrate_with(&(), &(), &s.layouts, ds, g.as_ref(), &s.root_ref, inputs)
				})?;
				let ok = match (&r, m) {
					(Ok(v), Model::Value(m)) => same_value(v, m, &s.map),
					(r, Model::Error) => r.is_err(),
					(_, m) => matches!(m, Model::None),
				};
				(format!("{r:?}"), ok)
			}
			Job::Dehydrate(v, n) => {
				let options = tl::distill::de::Options::default().with_input_count(*n);
				let r = guard("dehydrate", || tl::distill::dehydrate(&s.layouts, v, &s.root_ref, options))?;
				let ok = r.is_ok() == matches!(m, Model::Success);
				(format!("{r:?}"), ok)
			}
			_ => continue,
		};
		cov.eval();
		if !ok {
			return Err(Bad::Violation(format!("job {i} gives {what}\nexpected {m:?}")));
		}
	}
	let expected: Vec<String> = guard("converting", || {
		jobs.iter().map(|j| perform(j, &s.docs, &s.layouts, &s.root_ref, &jobs)).collect()
	})?;
	if let Job::Build(i) = &jobs[n] {
		if expected[n] != expected[*i] {
			return Err(Bad::Violation(format!(
				"the same layouts, built twice, do not give the same result\n{}\nthen\n{}",
				expected[*i], expected[n]
			)));
		}
	}
	for race in races {
		*cov.counts.entry("conversions started while another one ran".into()).or_default() += race.overlaps as u64;
		for (t, i, r) in race.outcomes {
			cov.eval();
			if r.as_ref() != Ok(&expected[i]) {
				let r = r.unwrap_or_else(|e| e);
				return Err(Bad::Violation(format!(
					"job {i} gives, in thread {t} of {} ({} rounds),\n{r}\nand alone\n{}",
					race.threads, race.rounds, expected[i]
				)));
			}
		}
	}
	// Whatever the outcome (documented panics included) there must be no
	// undefined behaviour: judged by the sanitizers, and by signals.
	let faulty = damaged(rng, &s.layouts);
	for j in &jobs {
		let few = match j {
			Job::Hydrate(ds, ..) => ds.len() <= 12,
			Job::Dehydrate(..) => true,
			_ => false,
		};
		if few {
			match guard("faulty", || perform(j, &[], &faulty, &s.root_ref, &[])) {
				Ok(r) if r == "error" => cov.hit("faulty layouts: error"),
				Ok(_) => cov.hit("faulty layouts: result"),
				Err(_) => cov.hit("faulty layouts: panic"),
			}
		}
	}
	let ok = expected.iter().filter(|e| *e != "error").count();
	if ok > 0 && n >= 3 {
		cov.observe(&cov.case.clone());
		let case = cov.case.clone();
		cov.sample(|| case);
	}
	Ok(())
}
