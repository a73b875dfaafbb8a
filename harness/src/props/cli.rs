//! The command line interface, end to end.
use super::distill::{data, describe, scene, scene_of, value_size, Scene};
use super::front::{fault, has_empty_object, Fault};
use super::values::{cbor_value, from_syntax, json as random_json, non_json, same_rounded};
use crate::gen::*;
use crate::json::J;
use crate::real::*;
use crate::refc::*;
use crate::refde;
use crate::refhy::{HErr, Hy, RVal, Q};
use crate::rng::Rng;
use crate::runner::*;
use json_syntax::Parse;
use nquads_syntax::Parse as _;
use rdf_types::{Id, Literal as RdfLiteral, Term};
use serde_cbor::Value as Cbor;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use treeldr_layouts::{Literal, Value};

pub static PROPS: &[Prop] = &[Prop {
	id: "P16",
	rule: "runs of the `tldr` program on random layout files, data, formats and options, including faulty ones; non trivial: output with at least 2 nodes or quads, or a rejected input; distinct by layouts, options and input",
	quick: 20_000,
	thorough: 1_500_000,
	hang: 120,
	threads: 8,
	run: p16,
}];

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) }
}

/// Scratch directory, removed with everything in it.
pub struct Scratch(pub PathBuf);

impl Scratch {
	pub fn new() -> Scratch {
		use std::sync::atomic::{AtomicU64, Ordering};
		static N: AtomicU64 = AtomicU64::new(0);
		let p = verif_dir()
			.join("work")
			.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
		std::fs::create_dir_all(&p).unwrap();
		Scratch(p)
	}

	pub fn file(&self, name: &str, content: &str) -> String {
		let p = self.0.join(name);
		std::fs::write(&p, content).unwrap();
		p.to_string_lossy().into_owned()
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		if let Ok(dir) = std::fs::read_dir(&self.0) {
			for f in dir.flatten() {
				let _ = std::fs::remove_file(f.path());
			}
		}
		let _ = std::fs::remove_dir(&self.0);
	}
}

pub struct Output {
	pub code: Option<i32>,
	pub out: Vec<u8>,
	pub err: String,
}

pub fn tldr() -> PathBuf {
	std::env::current_exe().unwrap().with_file_name("tldr")
}

pub fn run(cov: &mut Cov, dir: &Path, args: &[String], input: &[u8]) -> Result<Output, Bad> {
	run_of("tldr", cov, dir, args, input)
}

pub fn run_of(bin: &str, cov: &mut Cov, dir: &Path, args: &[String], input: &[u8]) -> Result<Output, Bad> {
	if args.iter().any(|a| a.contains('\0')) {
		return Err(Bad::Skip("arguments that no process can be given"));
	}
	cov.case.push_str(&format!(
		"{bin} {}\n<stdin\n{}\n>\n",
		args.join(" "),
		String::from_utf8_lossy(input)
	));
	let mut child = Command::new(tldr().with_file_name(bin))
		.args(args)
		.current_dir(dir)
		.stdin(Stdio::piped())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.expect(bin);
	let mut stdin = child.stdin.take().unwrap();
	let mut stdout = child.stdout.take().unwrap();
	let mut stderr = child.stderr.take().unwrap();
	let input_copy = input.to_vec();
	let input = input.to_vec();
	let w = std::thread::spawn(move || {
		let _ = stdin.write_all(&input);
	});
	let o = std::thread::spawn(move || {
		let mut v = Vec::new();
		let _ = stdout.read_to_end(&mut v);
		v
	});
	let e = std::thread::spawn(move || {
		let mut v = Vec::new();
		let _ = stderr.read_to_end(&mut v);
		v
	});
	let t = Instant::now();
	let status = loop {
		match child.try_wait().unwrap() {
			Some(s) => break s,
			None if t.elapsed().as_secs() > 60 => {
				let _ = child.kill();
				let _ = child.wait();
				bad!("{bin} does not terminate")
			}
			None => std::thread::sleep(Duration::from_micros(500)),
		}
	};
	let _ = w.join();
	let out = o.join().unwrap();
	let err = String::from_utf8_lossy(&e.join().unwrap()).into_owned();
	cov.hit("runs");
	cov.eval();
	if !matches!(status.code(), Some(0 | 1 | 2)) {
		bad!("{bin} ended with {status}: {err}")
	}
	if status.code() == Some(0) && err.contains("panicked") {
		bad!("{bin} panicked: {err}")
	}
	if bin == "tldr" && status.code() == Some(0) && !out.is_empty() && hash(&cov.case) % 6 == 0 {
		lost_output(cov, dir, args, &input_copy)?
	}
	Ok(Output {
		code: status.code(),
		out,
		err,
	})
}

fn hash(s: &str) -> u64 {
	use std::hash::{Hash, Hasher};
	#[allow(deprecated)]
	let mut h = std::hash::SipHasher::new();
	s.hash(&mut h);
	h.finish()
}

/// A run whose output cannot be written must not pretend that it succeeded.
fn lost_output(cov: &mut Cov, dir: &Path, args: &[String], input: &[u8]) -> Case {
	let full = match std::fs::OpenOptions::new().write(true).open("/dev/full") {
		Ok(f) => f,
		Err(_) => return Ok(()),
	};
	let path = dir.join("stdin");
	std::fs::write(&path, input).unwrap();
	let o = Command::new(tldr())
		.args(args)
		.current_dir(dir)
		.stdin(std::fs::File::open(&path).unwrap())
		.stdout(full)
		.output()
		.expect("tldr");
	let err = String::from_utf8_lossy(&o.stderr).into_owned();
	cov.eval();
	cov.hit("runs with a full output device");
	if o.status.code() != Some(1) || !err.contains("error") {
		bad!("the output cannot be written (/dev/full), but tldr ended with {}, stderr {err:?}", o.status)
	}
	Ok(())
}

/// Checks that the run failed properly.
fn failed(o: &Output, why: &str, cov: &mut Cov) -> Case {
	if o.code != Some(1) {
		bad!("{why}: exit status {:?}, stdout {:?}, stderr {:?}", o.code, String::from_utf8_lossy(&o.out), o.err)
	}
	if !o.err.contains("error") {
		bad!("{why}: no error message: {:?}", o.err)
	}
	if !o.out.is_empty() {
		bad!("{why}: output in spite of the error: {:?}", String::from_utf8_lossy(&o.out))
	}
	cov.hit(format!("rejected: {why}"));
	cov.observe(&cov.case.clone());
	Ok(())
}

fn succeeded(o: &Output) -> Case {
	if o.code != Some(0) {
		bad!("exit status {:?}: {}", o.code, o.err)
	}
	Ok(())
}

fn nquads_term(t: &Term, out: &mut String) {
	match t {
		Term::Id(Id::Iri(i)) => out.push_str(&format!("<{i}>")),
		Term::Id(Id::Blank(b)) => out.push_str(b.as_str()),
		Term::Literal(RdfLiteral { value, type_ }) => {
			out.push('"');
			for c in value.chars() {
				match c {
					'"' => out.push_str("\\\""),
					'\\' => out.push_str("\\\\"),
					'\n' => out.push_str("\\n"),
					'\r' => out.push_str("\\r"),
					c => out.push(c),
				}
			}
			out.push('"');
			match type_ {
				rdf_types::LiteralType::Any(i) => {
					if i.as_str() != format!("{XSD}string") {
						out.push_str(&format!("^^<{i}>"))
					}
				}
				rdf_types::LiteralType::LangString(l) => out.push_str(&format!("@{l}")),
			}
		}
	}
}

pub fn nquads(rng: &mut Rng, data: &[Q]) -> String {
	let mut data = data.to_vec();
	rng.shuffle(&mut data);
	let mut out = String::new();
	for q in &data {
		for t in [&q.0, &q.1, &q.2].into_iter().chain(&q.3) {
			nquads_term(t, &mut out);
			out.push(' ');
		}
		out.push_str(".\n");
	}
	out
}

fn read_nquads(out: &[u8]) -> Result<Vec<Q>, Bad> {
	let text = std::str::from_utf8(out).map_err(|_| "the output is not UTF-8".to_string())?;
	let doc = nquads_syntax::GrdfDocument::parse_str(text).map_err(|e| format!("the output is not N-Quads: {e:?}\n{text}"))?;
	let mut v: Vec<Q> = doc
		.into_value()
		.into_iter()
		.map(|q| {
			let q = nquads_syntax::strip_quad(q.into_value());
			(q.0, q.1, q.2, q.3)
		})
		.collect();
	let n = v.len();
	v.sort();
	v.dedup();
	if v.len() != n {
		bad!("quads are repeated in the output:\n{text}")
	}
	Ok(v)
}

fn read_json(out: &[u8]) -> Result<Value, Bad> {
	let text = std::str::from_utf8(out).map_err(|_| "the output is not UTF-8".to_string())?;
	let (j, _) = json_syntax::Value::parse_str(text).map_err(|e| format!("the output is not JSON: {e}\n{text}"))?;
	Ok(json_value(&from_syntax(&j)))
}

fn leaf(r: &RVal) -> bool {
	!matches!(r, RVal::Variant(..) | RVal::Map(..) | RVal::List(..))
}

/// Compares with the reference, modulo the order of unordered lists.
fn same_tree<T>(v: &T, r: &RVal, kids: &dyn Fn(&T, &RVal) -> Option<Vec<(Option<Value>, T)>>, lit: &dyn Fn(&T, &Value) -> bool) -> bool {
	match r {
		RVal::Variant(r, _, _) => same_tree(v, r, kids, lit),
		r if leaf(r) => lit(v, &r.untyped()),
		RVal::Map(m, _) => match kids(v, r) {
			Some(k) => {
				k.len() == m.len()
					&& k.iter()
						.all(|(key, w)| key.as_ref().and_then(|k| m.get(k)).is_some_and(|r| same_tree(w, r, kids, lit)))
			}
			None => false,
		},
		RVal::List(l, _, unordered) => match kids(v, r) {
			Some(k) => {
				if k.len() != l.len() {
					return false;
				}
				if *unordered {
					let mut rest: Vec<&RVal> = l.iter().collect();
					k.iter().all(|(_, w)| match rest.iter().position(|r| same_tree(w, r, kids, lit)) {
						Some(i) => {
							rest.swap_remove(i);
							true
						}
						None => false,
					})
				} else {
					k.iter().zip(l).all(|((_, w), r)| same_tree(w, r, kids, lit))
				}
			}
			None => false,
		},
		_ => unreachable!(),
	}
}

fn json_kids(v: &Value, r: &RVal) -> Option<Vec<(Option<Value>, Value)>> {
	match (v, r) {
		(Value::Map(m), RVal::Map(..)) => Some(m.iter().map(|(k, v)| (Some(k.clone()), v.clone())).collect()),
		(Value::List(l), RVal::List(..)) => Some(l.iter().map(|v| (None, v.clone())).collect()),
		_ => None,
	}
}

fn cbor_kids(v: &Cbor, r: &RVal) -> Option<Vec<(Option<Value>, Cbor)>> {
	match (v, r) {
		(Cbor::Map(m), RVal::Map(e, _)) => {
			let mut out = Vec::new();
			for (k, v) in m {
				let k = e.keys().find(|x| cbor_value(k, x))?;
				out.push((Some(k.clone()), v.clone()));
			}
			Some(out)
		}
		(Cbor::Array(l), RVal::List(..)) => Some(l.iter().map(|v| (None, v.clone())).collect()),
		_ => None,
	}
}

/// Layouts for the program, that may use or redefine the prelude, and whether
/// it is enabled.
fn program_scene(rng: &mut Rng, cov: &mut Cov) -> Result<(Scene, bool), Bad> {
	let pre = super::registry::prelude();
	let mut names: Vec<String> = pre.lays.keys().filter_map(|k| match k {
		Key::Iri(i) => Some(i.clone()),
		Key::Anon(_) => None,
	}).collect();
	rng.shuffle(&mut names);
	let mut g = Gen::new(rng, false);
	if rng.pct(40) {
		for (id, _) in &mut g.named {
			if rng.pct(50) {
				*id = names.pop().unwrap();
			}
		}
	}
	if rng.pct(40) {
		g.foreign = names.iter().take(4).map(|i| (i.clone(), 1)).collect();
	}
	let prelude = rng.pct(80);
	let (lays, _) = Gen::library_of(rng, g);
	let mut s = scene_of(rng, cov, lays)?;
	if prelude {
		for (k, l) in pre.lays {
			let Key::Iri(i) = &k else { continue };
			s.map.insert(k.clone(), iri(i));
			if s.reg.lays.contains_key(&k) {
				cov.hit("prelude layout redefined")
			} else {
				s.reg.lays.insert(k, l);
			}
		}
	}
	Ok((s, prelude))
}

/// Layout files and options selecting the layout.
pub fn layout_args(rng: &mut Rng, s: &Scene, prelude: bool, dir: &Scratch) -> Option<(Vec<String>, Vec<String>)> {
	let n = s.docs.len();
	let files: Vec<String> = s
		.docs
		.iter()
		.enumerate()
		.map(|(i, d)| dir.file(&format!("layout {i}.json"), d))
		.collect();
	let mut before = Vec::new();
	let mut after = Vec::new();
	let id = match &s.root {
		Key::Iri(i) => Some(i.clone()),
		Key::Anon(_) => None,
	};
	if let Some(id) = &id {
		if rng.pct(60) {
			after.push("--layout".to_string());
			after.push(id.clone());
		}
	}
	let explicit = !after.is_empty();
	// the root is the last document.
	for (i, f) in files.iter().enumerate() {
		if i + 1 == n && !(explicit && rng.pct(30)) {
			before.push(f.clone())
		} else if explicit && rng.pct(50) {
			before.push(f.clone())
		} else {
			before.push(rng.pick(&["-i", "--include"]).to_string());
			before.push(f.clone());
		}
	}
	if !prelude {
		before.insert(0, rng.pick(&["-n", "--no-prelude"]).to_string());
	}
	Some((before, after))
}

fn small_numbers(v: &Value) -> bool {
	match v {
		Value::Literal(Literal::Number(n)) => {
			let n = n.as_big_rational();
			n.is_integer() && i64::try_from(n.to_integer()).is_ok()
		}
		Value::Literal(_) => true,
		Value::List(l) => l.iter().all(small_numbers),
		Value::Map(m) => m.iter().all(|(k, v)| small_numbers(k) && small_numbers(v)),
	}
}

fn to_cbor(v: &Value) -> Cbor {
	match v {
		Value::Literal(Literal::Unit) => Cbor::Null,
		Value::Literal(Literal::Boolean(b)) => Cbor::Bool(*b),
		Value::Literal(Literal::Number(n)) => {
			Cbor::Integer(i64::try_from(n.as_big_rational().to_integer()).unwrap() as i128)
		}
		Value::Literal(Literal::ByteString(b)) => Cbor::Bytes(b.clone()),
		Value::Literal(Literal::TextString(s)) => Cbor::Text(s.clone()),
		Value::List(l) => Cbor::Array(l.iter().map(to_cbor).collect()),
		Value::Map(m) => Cbor::Map(m.iter().map(|(k, v)| (to_cbor(k), to_cbor(v))).collect()),
	}
}

fn to_json(v: &Value) -> J {
	match v {
		Value::Literal(Literal::Unit) => J::Null,
		Value::Literal(Literal::Boolean(b)) => J::Bool(*b),
		Value::Literal(Literal::Number(n)) => J::Num(refde::decimal_lexical(n.as_big_rational())),
		Value::Literal(Literal::ByteString(_)) => unreachable!(),
		Value::Literal(Literal::TextString(s)) => J::str(s.clone()),
		Value::List(l) => J::Arr(l.iter().map(to_json).collect()),
		Value::Map(m) => J::Obj(
			m.iter()
				.map(|(k, v)| (k.as_str().unwrap().to_string(), to_json(v)))
				.collect(),
		),
	}
}

const JSON: &[&str] = &["json", "application/json"];
const CBOR: &[&str] = &["cbor", "application/cbor"];
const NQ: &[&str] = &["nq", "nquads", "n-quads", "application/n-quads"];

fn opt(rng: &mut Rng, args: &mut Vec<String>, flag: &str, names: &[&str], default: bool) {
	if !default || rng.pct(40) {
		let long = format!("--{}", if flag == "-i" { "input" } else { "output" });
		args.push(if rng.pct(50) { flag.to_string() } else { long });
		args.push(rng.pick(names).to_string());
	}
}

fn repeats(q: &Q) -> bool {
	q.0 == q.1 || q.0 == q.2 || q.1 == q.2 || q.3.as_ref().is_some_and(|g| [&q.0, &q.1, &q.2].contains(&g))
}

fn hydrate(rng: &mut Rng, cov: &mut Cov) -> Case {
	let (s, prelude) = program_scene(rng, cov)?;
	if s.docs.iter().any(|d| d.contains("{}")) {
		return Err(Bad::Skip("documents with an empty object"));
	}
	let dir = Scratch::new();
	let docs = cov.case.clone();
	for _ in 0..2 {
		cov.case = docs.clone();
		let fit = rng.pct(80);
		let Some((mut data, graph, inputs)) = data(rng, &s, fit) else {
			continue;
		};
		// see `settle`.
		data.retain(|q| !repeats(q));
		if graph.is_some() || inputs.iter().any(|t| matches!(t, Term::Literal(_))) {
			continue;
		}
		describe(cov, &data, &graph, &inputs);
		let mut hy = Hy::new(&s.reg, &data);
		let expected = hy.run(&s.root, None, &inputs);
		if let Err(e) = &expected {
			if e.contains(&HErr::Budget) || e.contains(&HErr::Unspecified) {
				continue;
			}
		}
		let Some((mut args, after)) = layout_args(rng, &s, prelude, &dir) else {
			continue;
		};
		args.push("hydrate".into());
		let cbor = rng.pct(40);
		opt(rng, &mut args, "-i", NQ, true);
		opt(rng, &mut args, "-o", if cbor { CBOR } else { JSON }, !cbor);
		if rng.pct(30) {
			args.push(rng.pick(&["-p", "--pretty"]).to_string());
		}
		args.extend(after);
		args.extend(inputs.iter().map(|t| match t {
			Term::Id(Id::Iri(i)) => i.to_string(),
			Term::Id(Id::Blank(b)) => b.to_string(),
			_ => unreachable!(),
		}));
		let text = nquads(rng, &data);
		let o = run(cov, &dir.0, &args, text.as_bytes())?;
		match expected {
			Err(e) => failed(&o, &format!("hydration error {:?}", e.first().map(|e| format!("{e:?}").split(['(', ' ']).next().unwrap().to_string())), cov)?,
			Ok(r) => {
				let u = r.untyped();
				let mut reasons = Vec::new();
				non_json(&u, &mut reasons);
				if cbor {
					if s.docs.iter().any(|d| d.contains("cbor")) {
						continue;
					}
					succeeded(&o)?;
					let c: Cbor = serde_cbor::from_slice(&o.out).map_err(|e| format!("the output is not CBOR: {e}"))?;
					if !same_tree(&c, &r, &cbor_kids, &cbor_value) {
						bad!("tldr hydrate printed {c:?}\nexpected {r:?}")
					}
					cov.hit("hydrated as CBOR");
				} else if reasons.is_empty() {
					succeeded(&o)?;
					let v = read_json(&o.out)?;
					if !same_tree(&v, &r, &json_kids, &same_rounded) {
						bad!("tldr hydrate printed {v:?}\nexpected {r:?}")
					}
					cov.hit("hydrated as JSON");
				} else {
					failed(&o, "value without JSON representation", cov)?
				}
				if value_size(&u) >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}output: {}", String::from_utf8_lossy(&o.out)));
				}
			}
		}
	}
	Ok(())
}

fn dehydrate(rng: &mut Rng, cov: &mut Cov) -> Case {
	let (s, prelude) = program_scene(rng, cov)?;
	if s.docs.iter().any(|d| d.contains("{}")) {
		return Err(Bad::Skip("documents with an empty object"));
	}
	let dir = Scratch::new();
	let docs = cov.case.clone();
	for _ in 0..2 {
		cov.case = docs.clone();
		let mut vg = VGen {
			reg: &s.reg,
			noise: *rng.pick(&[0, 0, 5]),
			unique: 0,
			strict: false,
			fuel: 60,
		};
		let value = vg.value(rng, &s.root, 4);
		let mut seen = BTreeMap::new();
		let expected = refde::dehydrate(&s.reg, &s.root, &value, 1, &mut seen);
		if let Err(e) = &expected {
			if e.contains(&refde::DErr::Budget) {
				continue;
			}
		}
		let mut reasons = Vec::new();
		non_json(&value, &mut reasons);
		let cbor = !reasons.is_empty() || rng.pct(30);
		if cbor && !small_numbers(&value) {
			continue;
		}
		let input = if cbor {
			serde_cbor::to_vec(&to_cbor(&value)).unwrap()
		} else {
			let mut j = to_json(&value);
			if rng.pct(50) {
				j.shuffle(rng);
			}
			j.print().into_bytes()
		};
		let Some((mut args, after)) = layout_args(rng, &s, prelude, &dir) else {
			continue;
		};
		args.push("dehydrate".into());
		opt(rng, &mut args, "-i", if cbor { CBOR } else { JSON }, !cbor);
		opt(rng, &mut args, "-o", NQ, true);
		args.extend(after);
		let o = run(cov, &dir.0, &args, &input)?;
		match expected {
			Err(e) => failed(&o, &format!("dehydration error {:?}", e.first().map(|e| format!("{e:?}").split(['(', ' ']).next().unwrap().to_string())), cov)?,
			Ok(e) => {
				succeeded(&o)?;
				let rq = read_nquads(&o.out)?;
				let (eq, _) = e.ground(|i| blank(&format!("anon{i}")), |i| blank(&format!("input{i}")));
				let anon = |t: &Term| matches!(t, Term::Id(Id::Blank(b)) if !b.as_str().starts_with("_:input"));
				if !refde::isomorphic(&eq, &rq, anon) {
					bad!("tldr dehydrate printed\n{}expected\n{}", print_data(&rq), print_data(&eq))
				}
				cov.hit("dehydrated");
				if rq.len() >= 2 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}output: {}", String::from_utf8_lossy(&o.out)));
				}
			}
		}
	}
	Ok(())
}

fn convert(rng: &mut Rng, cov: &mut Cov) -> Case {
	let dir = Scratch::new();
	let mut args: Vec<String> = vec!["convert".into()];
	if rng.pct(30) {
		args.push("rdf".into());
		opt(rng, &mut args, "-i", NQ, true);
		opt(rng, &mut args, "-o", NQ, true);
		let mut data: Vec<Q> = Vec::new();
		for _ in 0..rng.below(6) {
			let node = |rng: &mut Rng| match rng.below(3) {
				0 => blank(&format!("b{}", rng.below(3))),
				_ => iri(&format!("https://example.org/{}", rng.below(5))),
			};
			let o = if rng.pct(60) {
				match rng.below(4) {
					0 => lang(rng.pick(&["a", "é\n\"\\", "", "\t\u{1f600}"]), rng.pick(&["en", "fr-FR"])),
					1 => lit(rng.pick(&["a\"b", "\\n", "\r\n", "é", "1"]), &format!("{XSD}string")),
					_ => random_literal(rng),
				}
			} else {
				node(rng)
			};
			let g = if rng.pct(40) { Some(node(rng)) } else { None };
			data.push((node(rng), iri(&format!("https://example.org/p{}", rng.below(3))), o, g));
		}
		// see `settle`.
		data.retain(|q| !repeats(q));
		data.sort();
		data.dedup();
		let text = nquads(rng, &data);
		let o = run(cov, &dir.0, &args, text.as_bytes())?;
		succeeded(&o)?;
		let rq = read_nquads(&o.out)?;
		if rq != data {
			bad!("tldr convert rdf printed\n{}expected\n{}", print_data(&rq), print_data(&data))
		}
		cov.hit("converted RDF");
		if data.len() >= 2 {
			cov.observe(&text);
		}
		return Ok(());
	}
	args.push("tree".into());
	let j = loop {
		let depth = rng.below(4);
		let j = random_json(rng, depth);
		if !has_empty_object(&j) || rng.pct(20) {
			break j;
		}
	};
	let v = json_value(&j);
	let from_cbor = rng.pct(40) && small_numbers(&v);
	let to_cbor_ = rng.pct(40);
	opt(rng, &mut args, "-i", if from_cbor { CBOR } else { JSON }, !from_cbor);
	opt(rng, &mut args, "-o", if to_cbor_ { CBOR } else { JSON }, !to_cbor_);
	if rng.pct(30) {
		args.push("-p".into());
	}
	let input = if from_cbor { serde_cbor::to_vec(&to_cbor(&v)).unwrap() } else { j.print().into_bytes() };
	let o = run(cov, &dir.0, &args, &input)?;
	succeeded(&o)?;
	if to_cbor_ {
		let c: Cbor = serde_cbor::from_slice(&o.out).map_err(|e| format!("the output is not CBOR: {e}"))?;
		if !small_numbers(&v) {
			// written through serde: see P11.
			cov.hit("converted to CBOR (numbers not judged)");
			return Ok(());
		}
		if !cbor_value(&c, &v) {
			bad!("tldr convert tree printed {c:?}\nexpected {v:?}")
		}
	} else {
		let w = read_json(&o.out)?;
		if !same_rounded(&w, &v) {
			bad!("tldr convert tree printed {w:?}\nexpected {v:?}")
		}
	}
	cov.hit(format!("converted {} to {}", if from_cbor { "CBOR" } else { "JSON" }, if to_cbor_ { "CBOR" } else { "JSON" }));
	if value_size(&v) >= 2 {
		cov.observe(&cov.case.clone());
	}
	Ok(())
}

/// Line and column of the byte, as printed.
fn position(text: &str, byte: usize) -> String {
	let line = text[..byte].matches('\n').count() + 1;
	let start = text[..byte].rfind('\n').map(|i| i + 1).unwrap_or(0);
	format!("{line}:{}", text[start..byte].chars().count() + 1)
}

fn faults(rng: &mut Rng, cov: &mut Cov) -> Case {
	let s = scene(rng, cov, false)?;
	if s.docs.iter().any(|d| d.contains("{}")) {
		return Err(Bad::Skip("documents with an empty object"));
	}
	let dir = Scratch::new();
	let n = s.docs.len();
	let id = match &s.root {
		Key::Iri(i) => i.clone(),
		Key::Anon(_) => return Err(Bad::Skip("anonymous root")),
	};
	let file = |i: usize| dir.file(&format!("l{i}.json"), &s.docs[i]);
	let mut args: Vec<String> = (0..n).map(file).collect();
	let verb = |rng: &mut Rng| rng.pick(&["hydrate", "dehydrate"]).to_string();
	let with = |args: &mut Vec<String>, v: String, id: &str| {
		args.push(v);
		args.push("-l".into());
		args.push(id.to_string());
	};
	match rng.below(9) {
		0 => {
			// a fault in a layout file, reported where it is.
			let i = rng.below(n);
			let (j, _) = json_syntax::Value::parse_str(&s.docs[i]).unwrap();
			let mut bad_doc = from_syntax(&j);
			let Some(f): Option<Fault> = fault(rng, &mut bad_doc) else {
				return Err(Bad::Skip("no fault"));
			};
			if has_empty_object(&bad_doc) {
				return Err(Bad::Skip("documents with an empty object"));
			}
			let mut text = bad_doc.print();
			if rng.pct(50) {
				text = format!("\n  {text}\n");
			}
			let name = dir.file("fault.json", &text);
			args[i] = name.clone();
			let v = verb(rng);
			with(&mut args, v, &id);
			let o = run(cov, &dir.0, &args, b"")?;
			failed(&o, "fault in a layout file", cov)?;
			let (_, map) = json_syntax::Value::parse_str(&text).unwrap();
			let at: BTreeSet<String> = f
				.offsets
				.iter()
				.filter_map(|o| map.get(*o))
				.map(|m| format!("{name}:{}", position(&text, m.span.start())))
				.collect();
			let plain: String = strip_ansi(&o.err);
			if !at.iter().any(|p| plain.lines().any(|l| l.trim_end().ends_with(p.as_str()))) {
				bad!("the fault ({}) is expected at {at:?}:\n{plain}", f.what)
			}
		}
		1 => {
			args.push(dir.0.join("missing.json").to_string_lossy().into_owned());
			let v = verb(rng);
			with(&mut args, v, &id);
			let o = run(cov, &dir.0, &args, b"")?;
			failed(&o, "missing file", cov)?
		}
		2 => {
			// the default layout is the one given, if only one is.
			let none = n < 2 && rng.pct(50);
			if none {
				args.clear();
			} else {
				let more = rng.range(1, 4);
				for i in 0..more {
					let doc = format!("{{\"type\": \"id\", \"id\": \"https://example.org/more/{i}\"}}");
					args.insert(rng.below(args.len() + 1), dir.file(&format!("more{i}.json"), &doc));
				}
			}
			// …with an input that any of the layouts added above accepts.
			args.push(verb(rng));
			let hy = args.last().unwrap() == "hydrate";
			if hy {
				args.push("https://example.org/x".into())
			}
			let o = run(cov, &dir.0, &args, if hy { b"" } else { b"\"https://example.org/x\"" })?;
			failed(&o, if none { "no default layout" } else { "several default layouts" }, cov)?
		}
		3 => {
			let v = rng.pick(&["hydrate", "dehydrate"]).to_string();
			let hy = v == "hydrate";
			with(&mut args, v, "https://example.org/unknown");
			if hy {
				args.push("https://example.org/x".into());
			}
			let o = run(cov, &dir.0, &args, if hy { b"" } else { b"null" })?;
			failed(&o, "unknown layout", cov)?
		}
		4 => {
			// defined twice.
			let f = dir.file("again.json", &s.docs[n - 1]);
			if rng.pct(50) {
				args.push("-i".into());
			}
			args.push(f);
			let v = verb(rng);
			with(&mut args, v, &id);
			let o = run(cov, &dir.0, &args, b"")?;
			failed(&o, "layout defined twice", cov)?
		}
		5 => {
			let v = verb(rng);
			let input: &[u8] = if v == "hydrate" {
				*rng.pick(&[&b"<https://a.org/> <https://a.org/>"[..], b"\xff\xfe", b"\"a", b"<https://a.org/x> <https://a.org/y> \"\\q\" .", b"<a b> <https://a.org/p> _:b .", b"{}"])
			} else {
				*rng.pick(&[&b""[..], b"{\"a\": 1,}", b"\"\xff\"", b"[1, 2", b"nul", b"01", b"\"a\nb\"", b"{a: 1}", b"\"\\ud800\""])
			};
			if v == "hydrate" && input == b"" {
				return Ok(());
			}
			with(&mut args, v, &id);
			let o = run(cov, &dir.0, &args, input)?;
			failed(&o, "malformed input", cov)?
		}
		6 => {
			let text = *rng.pick(&["", "{", "[]", "{\"type\": \"string\"} x", "{\"type\": \"\\q\"}", "null", "{\"type\": \"string\", \"id\": \"https://example.org/é\nx\"}"]);
			let i = rng.below(n);
			args[i] = dir.file("malformed.json", text);
			let v = verb(rng);
			with(&mut args, v, &id);
			let o = run(cov, &dir.0, &args, b"")?;
			failed(&o, "malformed layout file", cov)?
		}
		7 => {
			// reading the input fails.
			let v = rng.pick(&["hydrate", "dehydrate", "tree", "rdf"]).to_string();
			if v.len() < 5 {
				args = vec!["convert".into(), v.clone()]
			} else {
				with(&mut args, v.clone(), &id)
			}
			if (v == "tree" || v == "dehydrate") && rng.pct(50) {
				args.extend(["-i".into(), "cbor".into()])
			}
			cov.case.push_str(&format!("tldr {} < directory", args.join(" ")));
			let o = Command::new(tldr())
				.args(&args)
				.current_dir(&dir.0)
				.stdin(std::fs::File::open(&dir.0).unwrap())
				.output()
				.expect("tldr");
			let o = Output {
				code: o.status.code(),
				out: o.stdout,
				err: String::from_utf8_lossy(&o.stderr).into_owned(),
			};
			failed(&o, "unreadable input", cov)?
		}
		_ => {
			args.push("dehydrate".into());
			args.extend(["-l".into(), id.clone(), "-i".into(), "cbor".into()]);
			let input: &[u8] = rng.pick(&[&b"\x82\x01"[..], b"\xff", b"", b"\x62\xff\xff", b"\x01\x01"]);
			let o = run(cov, &dir.0, &args, input)?;
			failed(&o, "malformed CBOR", cov)?
		}
	}
	Ok(())
}

fn strip_ansi(s: &str) -> String {
	let mut out = String::new();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c == '\x1b' {
			for d in it.by_ref() {
				if d.is_ascii_alphabetic() {
					break;
				}
			}
		} else {
			out.push(c)
		}
	}
	out
}

fn p16(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	match rng.below(10) {
		0..=3 => hydrate(rng, cov),
		4..=6 => dehydrate(rng, cov),
		7 => convert(rng, cov),
		_ => faults(rng, cov),
	}
}

/// Known finding (see known-findings.txt): does it still fail?
pub fn repeated_resource() -> bool {
	let dir = Scratch::new();
	let layout = dir.file(
		"layout.json",
		r#"{"id":"https://e.org/l","type":"record","fields":{"x":{"property":"https://e.org/p","value":"https://treeldr.org/prelude#id"}}}"#,
	);
	let args = [layout, "hydrate".into(), "https://e.org/x".into()];
	let data = b"<https://e.org/x> <https://e.org/p> <https://e.org/p> .\n<https://e.org/x> <https://e.org/x> <https://e.org/p> .\n";
	match run(&mut Cov::default(), &dir.0, &args, data) {
		Ok(o) => o.out != b"{\"x\":\"https://e.org/p\"}",
		Err(_) => true,
	}
}
