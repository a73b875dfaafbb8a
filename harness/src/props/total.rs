//! Totality: hostile documents, expressions, data and values.
use super::cli::{layout_args, run, Scratch};
use super::distill::{data, describe, scene, Scene};
use crate::ast::*;
use crate::gen::*;
use crate::json::J;
use crate::real::*;
use crate::refc::*;
use crate::refhy::Q;
use crate::rng::Rng;
use crate::runner::*;
use crate::rx::Rx;
use json_syntax::{Parse, TryFromJson};
use rdf_types::{BlankIdBuf, Term};
use treeldr_layouts as tl;
use treeldr_layouts::abs::syntax::Layout;
use treeldr_layouts::{Literal, Value};

pub static PROPS: &[Prop] = &[Prop {
	id: "P15",
	rule: "mutated and random layout documents (structure and text), hostile regular expressions, random and cyclic datasets, ill-shaped values, random JSON and CBOR bytes, deep data and documents, mutated files given to the program; non trivial: every input; distinct by input",
	quick: 500_000,
	thorough: 8_000_000,
	hang: 40,
	threads: 8,
	run: p15,
}];

const KEYS: &[&str] = &[
	"type", "id", "input", "intro", "dataset", "fields", "variants", "item", "items", "node", "head", "rest", "first",
	"tail", "value", "layout", "graph", "property", "required", "pattern", "resource", "datatype", "const", "extra",
	"base", "prefixes", "", "language", "layouts", "default",
];

const STRINGS: &[&str] = &[
	"unit", "boolean", "number", "string", "bytes", "id", "record", "sum", "list", "set", "tuple", "always", "never", "_:self",
	"_:value", "_:head", "_:rest", "_:x", "_:", "_", ":", "self", "value", "x", "", "ex:", "ex:p", "https://ex.org/p0",
	"https://ex.org/L0", "https://ex.org/L1", "//", "#a", "?", "%", "%zz", "\u{0}", "é", "a b", "<", "http://[", "rdf:nil",
	"http://www.w3.org/2001/XMLSchema#integer", "http://www.w3.org/2001/XMLSchema#string", "xsd:string", "_:_:a", "_:0", "a-",
	"en", "x-", "[", "(", "a|", "\u{10ffff}", ".", "..", "_:é", "_:a.", "self/value",
];

fn random_json(rng: &mut Rng, depth: usize) -> J {
	match rng.below(if depth == 0 { 5 } else { 9 }) {
		0 => J::Null,
		1 => J::Bool(rng.pct(50)),
		2 => J::Num(
			(*rng.pick(&["0", "1", "-1", "-0", "4294967296", "1e400", "1e-400", "0.5", "18446744073709551616", "-9223372036854775809", "2E2"])).into(),
		),
		3 | 4 => J::str(*rng.pick(STRINGS)),
		5 | 6 => J::Arr((0..rng.below(4)).map(|_| random_json(rng, depth - 1)).collect()),
		_ => J::Obj(
			(0..rng.below(5))
				.map(|_| (rng.pick(KEYS).to_string(), random_json(rng, depth - 1)))
				.collect(),
		),
	}
}

/// A document that looks like a layout.
fn random_layout(rng: &mut Rng, depth: usize) -> J {
	let mut o = vec![("type".to_string(), J::str(*rng.pick(&STRINGS[..13])))];
	let n = rng.below(6);
	for _ in 0..n {
		let k = *rng.pick(KEYS);
		if o.iter().any(|(x, _)| x == k) {
			continue;
		}
		let v = if depth > 0 && rng.pct(50) {
			match k {
				"item" | "node" | "value" | "layout" => random_layout(rng, depth - 1),
				"fields" | "variants" | "prefixes" => J::Obj(
					(0..rng.range(1, 3))
						.map(|i| (format!("{}{i}", rng.pick(STRINGS)), random_layout(rng, depth - 1)))
						.collect(),
				),
				"items" => J::Arr((0..rng.below(3)).map(|_| random_layout(rng, depth - 1)).collect()),
				"dataset" => J::Arr(
					(0..rng.below(3))
						.map(|_| J::Arr((0..rng.range(2, 5)).map(|_| J::str(*rng.pick(STRINGS))).collect()))
						.collect(),
				),
				_ => random_json(rng, depth - 1),
			}
		} else {
			J::str(*rng.pick(STRINGS))
		};
		o.push((k.to_string(), v));
	}
	J::Obj(o)
}

fn count(j: &J) -> usize {
	1 + match j {
		J::Arr(v) => v.iter().map(count).sum(),
		J::Obj(o) => o.iter().map(|(_, v)| count(v)).sum(),
		_ => 0,
	}
}

fn nth(j: &mut J, n: &mut usize) -> Option<*mut J> {
	if *n == 0 {
		return Some(j);
	}
	*n -= 1;
	match j {
		J::Arr(v) => v.iter_mut().find_map(|v| nth(v, n)),
		J::Obj(o) => o.iter_mut().find_map(|(_, v)| nth(v, n)),
		_ => None,
	}
}

fn pick_node<'a>(rng: &mut Rng, j: &'a mut J) -> &'a mut J {
	let mut n = rng.below(count(j));
	// safe: the pointer comes from `j`, borrowed for 'a.
	unsafe { &mut *nth(j, &mut n).unwrap() }
}

fn mutate_doc(rng: &mut Rng, doc: &mut J) {
	match rng.below(7) {
		0 => {
			let v = random_json(rng, 2);
			*pick_node(rng, doc) = v;
		}
		1 => {
			let v = pick_node(rng, doc).clone();
			*pick_node(rng, doc) = v;
		}
		2 => {
			let s = *rng.pick(STRINGS);
			*pick_node(rng, doc) = J::str(s);
		}
		3 => {
			let v = pick_node(rng, doc).clone();
			let k = *rng.pick(KEYS);
			for _ in 0..6 {
				if let J::Obj(o) = pick_node(rng, doc) {
					if !o.iter().any(|(x, _)| x == k) {
						o.push((k.to_string(), v));
					}
					break;
				}
			}
		}
		4 => {
			for _ in 0..6 {
				if let J::Obj(o) = pick_node(rng, doc) {
					if !o.is_empty() {
						let i = rng.below(o.len());
						o.remove(i);
						break;
					}
				}
			}
		}
		5 => {
			for _ in 0..6 {
				if let J::Arr(v) = pick_node(rng, doc) {
					if !v.is_empty() {
						let i = rng.below(v.len());
						match rng.below(3) {
							0 => {
								v.remove(i);
							}
							1 => {
								let x = v[i].clone();
								v.push(x)
							}
							_ => v.swap(0, i),
						}
						break;
					}
				}
			}
		}
		_ => {
			let v = random_layout(rng, 2);
			*pick_node(rng, doc) = v;
		}
	}
}

fn mutate_text(rng: &mut Rng, s: &str) -> String {
	let mut c: Vec<char> = s.chars().collect();
	for _ in 0..rng.range(1, 4) {
		if c.is_empty() {
			break;
		}
		let i = rng.below(c.len());
		match rng.below(6) {
			0 => {
				c.remove(i);
			}
			1 => c.insert(i, *rng.pick(&['"', '{', '}', '[', ']', ':', ',', '_', '\\', '0', 'é', ' ', '\u{1f600}', '-'])),
			2 => c.truncate(i),
			3 => {
				let j = rng.range(i, (i + 20).min(c.len()));
				c.drain(i..j);
			}
			4 => {
				let j = rng.range(i, (i + 20).min(c.len()));
				let copy: Vec<char> = c[i..j].to_vec();
				let k = rng.below(c.len());
				c.splice(k..k, copy);
			}
			_ => c[i] = *rng.pick(&['a', '_', '1', ':', '"', '/', '#', '\u{7f}']),
		}
	}
	c.into_iter().collect()
}

/// May the layouts of the document be built, as far as this check is
/// concerned?
fn buildable(v: &serde_json::Value) -> bool {
	match v {
		serde_json::Value::Array(v) => v.iter().all(buildable),
		serde_json::Value::Object(o) => {
			!matches!(o.get("type").and_then(|t| t.as_str()), Some("union" | "intersection"))
				&& o.get("pattern").and_then(|p| p.as_str()).is_none_or(|p| {
					Rx::parse(p).is_ok_and(|rx| rx.weight() < 300 && rx.tame(60)) && !p.contains('{')
				})
				&& o.values().all(buildable)
		}
		_ => true,
	}
}

/// Is there something that looks like an empty object? (a listed finding.)
fn has_empty_object(s: &str) -> bool {
	let s: String = s.chars().filter(|c| !c.is_ascii_whitespace()).collect();
	s.contains("{}")
}

fn hostile_data(rng: &mut Rng, terms: &[Term]) -> Vec<Q> {
	let nodes: Vec<Term> = (0..rng.range(1, 4))
		.map(|i| if i % 2 == 0 { blank(&format!("n{i}")) } else { iri(&format!("{EX}n{i}")) })
		.collect();
	let mut d = Vec::new();
	for _ in 0..rng.below(10) {
		let term = |rng: &mut Rng| match rng.below(8) {
			0 => random_literal(rng),
			1..=3 => rng.pick(&nodes).clone(),
			_ if !terms.is_empty() => rng.pick(terms).clone(),
			_ => rng.pick(&nodes).clone(),
		};
		let p = if rng.pct(85) && !terms.is_empty() { rng.pick(terms).clone() } else { term(rng) };
		let s = if rng.pct(80) { rng.pick(&nodes).clone() } else { term(rng) };
		let o = if rng.pct(50) { rng.pick(&nodes).clone() } else { term(rng) };
		let g = rng.pct(15).then(|| term(rng));
		d.push((s, p, o, g));
	}
	d
}

fn hostile_value(rng: &mut Rng, depth: usize) -> Value {
	match rng.below(if depth == 0 { 5 } else { 9 }) {
		0 => Value::Literal(Literal::Unit),
		1 => Value::Literal(Literal::Boolean(rng.pct(50))),
		2 => Value::Literal(Literal::Number(tl::value::Number::from(number(rng, &format!("{XSD}decimal"))))),
		3 => Value::Literal(Literal::TextString((*rng.pick(STRINGS)).into())),
		4 => Value::Literal(Literal::ByteString(vec![rng.below(256) as u8; rng.below(3)])),
		5 | 6 => Value::List((0..rng.below(4)).map(|_| hostile_value(rng, depth - 1)).collect()),
		_ => Value::Map(
			(0..rng.below(4))
				.map(|_| {
					let k = if rng.pct(70) { text(*rng.pick(&["a", "b", "c", "v0", "v1", "f", "é", ""])) } else { hostile_value(rng, depth - 1) };
					(k, hostile_value(rng, depth - 1))
				})
				.collect(),
		),
	}
}

/// Converts hostile data and values with the layouts.
fn convert(rng: &mut Rng, cov: &mut Cov, layouts: &tl::Layouts, r: &LRefT, terms: &[Term]) -> Case {
	let n = layouts.get(r).and_then(|l| l.input_count()).unwrap_or(1) as usize;
	let case = cov.case.clone();
	for _ in 0..2 {
		let mut d = hostile_data(rng, terms);
		d.sort();
		d.dedup();
		settle(&mut d);
		let graph = rng.pct(15).then(|| iri(&format!("{EX}g0")));
		let n = if rng.pct(10) { rng.below(4) } else { n };
		let inputs: Vec<Term> = (0..n)
			.map(|_| if d.is_empty() || rng.pct(5) { random_literal(rng) } else { rng.pick(&d).0.clone() })
			.collect();
		describe(cov, &d, &graph, &inputs);
		let ds = dataset(&d);
		cov.eval();
		let v = guard("hydrate", || tl::distill::hydrate_with(&(), &(), layouts, &ds, graph.as_ref(), r, &inputs))?;
		if let Ok(v) = v {
			cov.hit("hydrated");
			let _ = guard("CBOR conversion", || v.try_into_tagged_serde_cbor(layouts))?;
		} else {
			cov.hit("not hydrated");
		}
		cov.case = case.clone();
	}
	for _ in 0..2 {
		let v = hostile_value(rng, 3);
		cov.case.push_str(&format!("value: {v:?}\n"));
		cov.eval();
		match guard("dehydrate", || tl::distill::dehydrate(layouts, &v, r, Default::default()))? {
			Ok(_) => cov.hit("dehydrated"),
			Err(_) => cov.hit("not dehydrated"),
		}
		cov.case = case.clone();
	}
	Ok(())
}

fn document(rng: &mut Rng, cov: &mut Cov, text: &str, terms: &[Term]) -> Case {
	cov.case = format!("document:\n{text}\n");
	cov.observe(text);
	cov.eval();
	let case = cov.case.clone();
	let generic = guard("reading JSON", || serde_json::from_str::<serde_json::Value>(text))?;
	let a = guard("the serde reader", || serde_json::from_str::<Layout>(text))?;
	if !has_empty_object(text) {
		let b = guard("the JSON parser", || json_syntax::Value::parse_str(text))?;
		if let Ok((j, map)) = b {
			let r = guard("the located reader", || Layout::try_from_json_at(&j, &map, 0))?;
			cov.hit(if r.is_ok() { "read (located)" } else { "not read (located)" });
			if let Err(e) = r {
				let _ = guard("displaying the error", || e.to_string())?;
				if map.get(e.position()).is_none() {
					return Err(Bad::Violation(format!("the position {} of the error is not in the document", e.position())));
				}
			}
		}
	}
	let layout = match a {
		Ok(l) => l,
		Err(e) => {
			let _ = e.to_string();
			cov.hit("not read (serde)");
			return Ok(());
		}
	};
	cov.hit("read (serde)");
	cov.sample(|| case.clone());
	let printed = guard("printing", || serde_json::to_string(&layout))?;
	if let Err(e) = printed.map_err(|e| e.to_string()).and_then(|p| serde_json::from_str::<Layout>(&p).map_err(|e| format!("{e}: {p}"))) {
		return Err(Bad::Violation(format!("the document printed is not read: {e}")));
	}
	if !generic.as_ref().is_ok_and(buildable) {
		cov.hit("not built");
		return Ok(());
	}
	let mut builder = tl::abs::Builder::new();
	match guard("building", || layout.build(&mut builder))? {
		Ok(r) => {
			cov.hit("built");
			let layouts = builder.build();
			convert(rng, cov, &layouts, &r, terms)
		}
		Err(e) => {
			let _ = guard("displaying the error", || e.to_string())?;
			cov.hit("not built: error");
			Ok(())
		}
	}
}

fn default_terms() -> Vec<Term> {
	(0..4)
		.map(|i| iri(&format!("{EX}p{i}")))
		.chain([
			iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#first"),
			iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"),
			iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"),
		])
		.collect()
}

fn mutated_documents(rng: &mut Rng, cov: &mut Cov) -> Case {
	let (lays, _) = Gen::library(rng, false);
	let lay = rng.pick(&lays);
	let mut j = lay.to_json(rng);
	if rng.pct(75) {
		for _ in 0..rng.range(1, 4) {
			mutate_doc(rng, &mut j);
		}
		document(rng, cov, &j.print(), &default_terms())
	} else {
		let t = mutate_text(rng, &j.print());
		document(rng, cov, &t, &default_terms())
	}
}

fn random_documents(rng: &mut Rng, cov: &mut Cov) -> Case {
	let j = if rng.pct(80) { random_layout(rng, 3) } else { random_json(rng, 4) };
	document(rng, cov, &j.print(), &default_terms())
}

fn hostile_conversions(rng: &mut Rng, cov: &mut Cov) -> Case {
	let s: Scene = scene(rng, cov, false)?;
	cov.observe(&cov.case.clone());
	let mut terms: Vec<Term> = mentioned(&s.reg);
	terms.push(iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"));
	convert(rng, cov, &s.layouts, &s.root_ref, &terms)
}

fn expressions(rng: &mut Rng, cov: &mut Cov) -> Case {
	const C: &[&str] = &[
		"a", "b", "-", "[", "]", "(", ")", "|", "*", "+", "?", "{", "}", "^", "$", ".", "\\", "\\d", "\\w", "\\s", "\\n",
		"\\u", "\\x41", "\u{10ffff}", "\u{0}", "é", "1", ",", "\\\\", "/", ":", "\\b", "\u{d7ff}", "\u{e000}",
	];
	let mut s = if rng.pct(30) { crate::rx::gen(rng, 3) } else { String::new() };
	for _ in 0..rng.range(1, 10) {
		let i = rng.below(s.chars().count() + 1);
		let at = s.char_indices().nth(i).map_or(s.len(), |(i, _)| i);
		s.insert_str(at, rng.pick(C));
	}
	cov.case = format!("regular expression: {s:?}\n");
	cov.observe(&s);
	cov.eval();
	let rx = guard("parsing", || tl::abs::RegExp::parse(&s))?;
	match rx {
		Ok(rx) => {
			cov.hit("expression parsed");
			let p = guard("displaying", || rx.to_string())?;
			let _ = guard("parsing the display", || tl::abs::RegExp::parse(&p))?;
			let _ = guard("as singleton", || rx.as_singleton())?;
			let _ = guard("simplifying", || rx.simplified())?;
			// the others may have very large automata.
			if Rx::parse(&s).is_ok_and(|r| r.weight() < 300 && r.tame(100)) {
				let a = guard("building the automaton", || tl::abs::RegExp::parse(&s).unwrap().build())?;
				for w in ["", "a", "ab", "\u{10ffff}", "é1\u{0}"] {
					guard("matching", || a.contains(w))?;
				}
				cov.hit("automaton");
			}
		}
		Err(e) => {
			cov.hit("expression rejected");
			let _ = guard("displaying the error", || e.to_string())?;
		}
	}
	Ok(())
}

fn values(rng: &mut Rng, cov: &mut Cov) -> Case {
	let j = random_json(rng, 4);
	let t = j.print();
	let t = if rng.pct(50) { mutate_text(rng, &t) } else { t };
	// the exact value of such a number does not fit in memory.
	let digits = |s: &str| s.chars().skip_while(|c| matches!(c, '+' | '-')).take_while(char::is_ascii_digit).count();
	if t.split(['e', 'E']).skip(1).any(|e| digits(e) > 4) {
		return Err(Bad::Skip("huge exponent"));
	}
	cov.case = format!("JSON: {t}\n");
	cov.observe(&t);
	cov.eval();
	if let Ok((v, _)) = guard("the JSON parser", || json_syntax::Value::parse_str(&t))? {
		let v: Value = guard("conversion", || v.into())?;
		exercise(&v, cov)?;
	}
	if let Ok(v) = guard("the serde JSON parser", || serde_json::from_str::<serde_json::Value>(&t))? {
		let v: Value = guard("conversion", || v.into())?;
		exercise(&v, cov)?;
	}
	if let Ok(v) = guard("deserializing", || serde_json::from_str::<Value>(&t))? {
		exercise(&v, cov)?;
	}
	let v = hostile_value(rng, 4);
	cov.case = format!("value: {v:?}\n");
	exercise(&v, cov)?;
	Ok(())
}

fn exercise(v: &Value, cov: &mut Cov) -> Case {
	cov.eval();
	let _ = guard("displaying", || v.to_string())?;
	let _ = guard("converting to JSON", || json_syntax::Value::try_from(v.clone()))?;
	let _ = guard("converting to serde JSON", || serde_json::Value::try_from(v.clone()))?;
	let _ = guard("serializing", || serde_json::to_string(v))?;
	let c: serde_cbor::Value = guard("converting to CBOR", || v.clone().into())?;
	let _ = guard("encoding CBOR", || serde_cbor::to_vec(&c))?;
	if let Value::Literal(Literal::Number(n)) = v {
		let _ = guard("native number", || n.as_native())?;
		let _ = guard("f64", || n.to_f64())?;
	}
	cov.hit("value exercised");
	Ok(())
}

/// Deep data and documents.
fn deep(rng: &mut Rng, cov: &mut Cov) -> Case {
	let n = rng.range(20, 200);
	match rng.below(4) {
		0 => {
			// nested documents (JSON parsers stop at 128 levels).
			let n = rng.range(5, 30);
			let mut j = J::Obj(vec![("type".into(), J::str("id"))]);
			for i in 0..n {
				j = match i % 3 {
					0 => J::Obj(vec![
						("type".into(), J::str("record")),
						(
							"fields".into(),
							J::Obj(vec![(
								"a".into(),
								J::Obj(vec![("value".into(), j), ("property".into(), J::str(format!("{EX}p0")))]),
							)]),
						),
					]),
					1 => J::Obj(vec![
						("type".into(), J::str("sum")),
						("variants".into(), J::Obj(vec![("a".into(), J::Obj(vec![("value".into(), j)]))])),
					]),
					_ => J::Obj(vec![
						("type".into(), J::str("set")),
						("item".into(), J::Obj(vec![("value".into(), j), ("property".into(), J::str(format!("{EX}p1")))])),
					]),
				};
			}
			cov.hit("deep document");
			document(rng, cov, &j.print(), &default_terms())
		}
		1 => {
			// long lists.
			let doc = r#"{"type": "list", "node": {"value": {"layout": {"type": "number", "datatype": "http://www.w3.org/2001/XMLSchema#integer"}, "input": ["_:value"]}, "intro": ["value"], "dataset": [["_:head", "https://ex.org/p0", "_:value"], ["_:head", "https://ex.org/p1", "_:rest"]]}}"#;
			let (layouts, refs) = build(&[doc.to_string()]).map_err(Bad::Violation)?;
			let v = Value::List((0..n).map(|i| Value::Literal(Literal::Number(tl::value::Number::from(i as i32)))).collect());
			cov.case = format!("list of {n} items\n");
			deep_trip(cov, &layouts, &refs[0], &v)
		}
		2 => {
			// recursive records.
			let doc = r#"{"id": "https://ex.org/L", "type": "record", "fields": {"next": {"value": "https://ex.org/L", "property": "https://ex.org/p0"}}}"#;
			let (layouts, refs) = build(&[doc.to_string()]).map_err(Bad::Violation)?;
			let mut v = Value::Map(Default::default());
			for _ in 0..n {
				v = Value::Map([(text("next"), v)].into_iter().collect());
			}
			cov.case = format!("chain of {n} records\n");
			deep_trip(cov, &layouts, &refs[0], &v)
		}
		_ => {
			let mut t = String::new();
			let open = *rng.pick(&["[", "{\"a\":", "{\"fields\":{\"a\":"]);
			for _ in 0..n {
				t.push_str(open);
			}
			cov.hit("deep text");
			document(rng, cov, &t, &[])
		}
	}
}

fn deep_trip(cov: &mut Cov, layouts: &tl::Layouts, r: &LRefT, v: &Value) -> Case {
	cov.eval();
	let (ds, inputs) = match guard("dehydrate", || tl::distill::dehydrate(layouts, v, r, Default::default()))? {
		Ok(x) => x,
		Err(e) => return Err(Bad::Violation(format!("dehydrate failed with {e:?}"))),
	};
	let d = dataset(&quads(&ds));
	match guard("hydrate", || tl::distill::hydrate(layouts, &d, r, &inputs))? {
		Ok(h) if h.clone().into_untyped() == *v => {
			cov.hit("deep value");
			cov.observe(&cov.case.clone());
			Ok(())
		}
		other => Err(Bad::Violation(format!("hydrated to {other:?}"))),
	}
}

/// Mutated files given to the program.
fn program(rng: &mut Rng, cov: &mut Cov) -> Case {
	let s = scene(rng, cov, false)?;
	let Some((mut d, _, inputs)) = data(rng, &s, true) else { return Ok(()) };
	settle(&mut d);
	let dir = Scratch::new();
	let prelude = rng.pct(70);
	let Some((mut args, after)) = layout_args(rng, &s, prelude, &dir) else { return Ok(()) };
	if s.docs.iter().any(|d| has_empty_object(d)) {
		return Ok(());
	}
	if rng.pct(40) {
		let i = rng.below(s.docs.len());
		let doc = mutate_text(rng, &s.docs[i]);
		if has_empty_object(&doc) || serde_json::from_str(&doc).as_ref().is_ok_and(|p| !buildable(p)) {
			return Ok(());
		}
		cov.case.push_str(&format!("layout {i}.json: {doc}\n"));
		std::fs::write(dir.0.join(format!("layout {i}.json")), &doc).unwrap();
	}
	let mut input = if rng.pct(60) {
		super::cli::nquads(rng, &d)
	} else {
		random_json(rng, 3).print()
	};
	if rng.pct(60) {
		input = mutate_text(rng, &input);
	}
	let mut bytes = input.into_bytes();
	if rng.pct(20) && !bytes.is_empty() {
		let i = rng.below(bytes.len());
		bytes[i] = rng.below(256) as u8;
	}
	let command = *rng.pick(&["hydrate", "hydrate", "dehydrate", "convert"]);
	args.push(command.into());
	if rng.pct(30) {
		args.extend(["-i".to_string(), rng.pick(&["json", "cbor", "nquads", "n-quads", "xml"]).to_string()]);
	}
	args.extend(after);
	if command == "hydrate" {
		args.extend(inputs.iter().map(|t| t.to_string().trim_matches(['<', '>']).to_string()));
	}
	let o = run(cov, &dir.0, &args, &bytes)?;
	cov.eval();
	cov.observe(&cov.case.clone());
	let err = &o.err;
	match o.code {
		Some(c) if c != 101 && !err.contains("panicked at") => {
			cov.hit(if c == 0 { "program succeeded" } else { "program failed" });
			Ok(())
		}
		c => Err(Bad::Violation(format!("the program ended with {c:?}: {err}"))),
	}
}

fn names(rng: &mut Rng, cov: &mut Cov) -> Case {
	let s: String = (0..rng.range(0, 6)).map(|_| *rng.pick(&['a', '_', ':', '1', '-', '.', 'é', ' ', '\u{0}', '#', '/', '?', '%', '\u{b7}'])).collect();
	cov.case = format!("name: {s:?}\n");
	cov.observe(&s);
	cov.eval();
	if let Ok(v) = guard("variable name", || tl::abs::syntax::VariableNameBuf::new(s.clone()))? {
		cov.hit("variable name");
		let p = tl::abs::syntax::Pattern::Var(v.clone());
		let t = guard("printing", || serde_json::to_string(&p))?.unwrap();
		match serde_json::from_str::<tl::abs::syntax::Pattern>(&t) {
			Ok(q) if q == p => (),
			o => return Err(Bad::Violation(format!("{t} read as {o:?}"))),
		}
	}
	let _ = BlankIdBuf::new(s.clone());
	// in a pattern, alone in a layout.
	let doc = J::Obj(vec![
		("type".into(), J::str("id")),
		("input".into(), J::str(s.clone())),
		("resource".into(), J::str(format!("_:{s}"))),
		("prefixes".into(), J::Obj(vec![(s.clone(), J::str(format!("{EX}{s}")))])),
		("id".into(), J::str(format!("{s}:a"))),
	]);
	document(rng, cov, &doc.print(), &[])
}

fn p15(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	match rng.below(100) {
		0..=31 => mutated_documents(rng, cov),
		32..=46 => random_documents(rng, cov),
		47..=66 => hostile_conversions(rng, cov),
		67..=79 => expressions(rng, cov),
		80..=87 => values(rng, cov),
		88..=93 => names(rng, cov),
		94 | 95 => deep(rng, cov),
		_ => program(rng, cov),
	}
}

/// Listed finding: unions and intersections.
pub fn union_intersection() -> bool {
	["union", "intersection"].iter().any(|t| {
		let l: Layout = serde_json::from_str(&format!(r#"{{"type": "{t}"}}"#)).unwrap();
		let mut b = tl::abs::Builder::new();
		guard("building", || l.build(&mut b).map(|_| ())).is_err() || guard("building", || b.build()).is_err()
	})
}
