//! Regular expressions and automata.
use crate::gen::small;
use crate::json::J;
use crate::real;
use crate::rng::Rng;
use crate::runner::*;
use crate::rx::{self, Rx, RxErr};
use btree_range_map::{AnyRange, RangeSet};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::RangeBounds;
use treeldr_layouts as tl;
use treeldr_layouts::abs::RegExp;
use treeldr_layouts::utils::automaton::{Automaton, DetAutomaton};
use treeldr_layouts::{Literal, Value};

pub static PROPS: &[Prop] = &[
	Prop {
		id: "P13",
		rule: "random regular expressions (parsed, or assembled through the API) against sampled, mutated and exhaustive short words; non trivial: an expression with both accepted and rejected words; distinct by expression",
		quick: 60_000,
		thorough: 4_000_000,
		hang: 60,
		threads: 8,
		run: p13,
	},
	Prop {
		id: "P14",
		rule: "random automata with empty transitions and overlapping labels, combined by every operation, against all short words over the bounds of their labels; non trivial: both accepted and rejected words; distinct by automaton",
		quick: 40_000,
		thorough: 2_000_000,
		hang: 60,
		threads: 8,
		run: p14,
	},
];

fn all_words(alphabet: &[char], max: usize) -> Vec<String> {
	let mut out = vec![String::new()];
	let mut last = 0;
	for _ in 0..max {
		let end = out.len();
		for i in last..end {
			for c in alphabet {
				let w = format!("{}{c}", out[i]);
				out.push(w);
			}
		}
		last = end;
	}
	out
}

fn class_of(e: &tl::abs::regexp::ParseError) -> RxErr {
	use tl::abs::regexp::ParseError::*;
	match e {
		UnmatchedClosingParenthesis => RxErr::Unmatched,
		MissingClosingParenthesis => RxErr::Missing,
		IncompleteEscapeSequence => RxErr::Escape,
		IncompleteCharacterSet => RxErr::Charset,
	}
}

fn set(items: &[(char, char)], neg: bool) -> RangeSet<char> {
	let mut s = RangeSet::new();
	for (a, b) in items {
		s.insert(*a..=*b);
	}
	if neg {
		s = s.complement();
	}
	s
}

/// Assembles an expression with the API, and what it means.
fn assembled(rng: &mut Rng, depth: usize) -> (RegExp, Rx) {
	match rng.below(if depth == 0 { 4 } else { 12 }) {
		0 => {
			let mut w = String::new();
			for _ in 0..rng.below(4) {
				w.push(*rng.pick(&['a', 'b', '.', '*', 'é', '\\', '\u{10ffff}', '\n']));
			}
			let seq = w.chars().map(|c| Rx::Set(false, vec![(c, c)])).collect();
			(RegExp::from(w), Rx::Seq(seq))
		}
		1 => (RegExp::Any, Rx::Any),
		2 => {
			let items = vec![*rng.pick(&[('a', 'c'), ('b', 'b'), ('0', '9'), ('\0', 'a'), ('b', '\u{10ffff}'), ('\u{d7ff}', '\u{e000}')])];
			let neg = rng.pct(30);
			(RegExp::Set(set(&items, neg)), Rx::Set(neg, items))
		}
		3 => {
			let s = rx::gen(rng, 1);
			(RegExp::parse(&s).unwrap(), Rx::parse(&s).unwrap())
		}
		4 | 5 => {
			let mut e = RegExp::empty();
			let mut r = Vec::new();
			for _ in 0..rng.below(4) {
				let (a, b) = assembled(rng, depth - 1);
				e.push(a);
				r.push(b);
			}
			(e, Rx::Seq(r))
		}
		6 => {
			let (mut a, ra) = assembled(rng, depth - 1);
			let (b, rb) = assembled(rng, depth - 1);
			a.push(b);
			(a, Rx::Seq(vec![ra, rb]))
		}
		7 | 8 => {
			let n = rng.range(1, 3);
			let (a, b): (Vec<_>, Vec<_>) = (0..n).map(|_| assembled(rng, depth - 1)).unzip();
			(RegExp::Union(a), Rx::Alt(b))
		}
		9 => {
			let n = rng.below(4);
			let (a, b): (Vec<_>, Vec<_>) = (0..n).map(|_| assembled(rng, depth - 1)).unzip();
			(RegExp::Sequence(a), Rx::Seq(b))
		}
		_ => {
			let (mut a, b) = assembled(rng, depth - 1);
			if rng.pct(40) {
				let min = rng.below(3) as u32;
				a.repeat(min, u32::MAX);
				(a, Rx::Seq((0..min).map(|_| b.clone()).chain([Rx::Rep(Box::new(b.clone()), 0, true)]).collect()))
			} else {
				let min = rng.below(3) as u32;
				let max = min + rng.below(3) as u32;
				a.repeat(min, max);
				(a, Rx::Bounded(Box::new(b), min, max))
			}
		}
	}
}

fn same_language(what: &str, d: &DetAutomaton<usize>, r: &Rx, words: &[String], cov: &mut Cov) -> Result<(u64, u64), Bad> {
	let (mut yes, mut no) = (0, 0);
	for w in words {
		let expected = r.matches(w);
		cov.eval();
		if d.contains(w) != expected {
			return Err(format!("{what}: {w:?} is {}", if expected { "rejected" } else { "accepted" }).into());
		}
		if expected {
			yes += 1
		} else {
			no += 1
		}
	}
	Ok((yes, no))
}

fn check_singleton(e: &RegExp, r: &Rx, words: &[String], cov: &mut Cov) -> Case {
	let mut s = String::new();
	let known = r.single(&mut s).map(|_| s);
	let found = guard("as_singleton", || e.as_singleton())?;
	cov.eval();
	if e.is_singleton() != found.is_some() {
		return Err("is_singleton and as_singleton disagree".to_string().into());
	}
	match (&found, &known) {
		(None, Some(s)) => return Err(format!("the only word {s:?} is not found").into()),
		(Some(a), Some(b)) if a != b => return Err(format!("the only word is {b:?}, not {a:?}").into()),
		(Some(a), _) => {
			cov.hit("singletons");
			if !r.matches(a) {
				return Err(format!("the singleton {a:?} is not in the language").into());
			}
			if let Some(w) = words.iter().find(|w| *w != a && r.matches(w)) {
				return Err(format!("the singleton {a:?} is not the only word: {w:?}").into());
			}
		}
		_ => (),
	}
	Ok(())
}

fn p13(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let mode = rng.below(10);
	if mode < 2 {
		// broken sources.
		let mut s: Vec<char> = rx::gen(rng, 2).chars().collect();
		for _ in 0..rng.range(1, 2) {
			if rng.pct(40) && !s.is_empty() {
				let i = rng.below(s.len());
				s.truncate(i);
			} else {
				let i = rng.below(s.len() + 1);
				s.insert(i, *rng.pick(&['(', ')', '[', '\\', '|', '*', ']', 'a']));
			}
		}
		let s: String = s.into_iter().collect();
		cov.case = s.clone();
		let real = guard("parse", || RegExp::parse(&s))?;
		let refr = Rx::parse(&s);
		cov.eval();
		return match (real, refr) {
			(Err(a), Err(b)) => {
				let a = class_of(&a);
				cov.hit(format!("rejected: {a:?}"));
				cov.observe(&s);
				// several faults: any is right.
				if a != b && s.matches(['(', ')', '[', '\\']).count() < 2 {
					return Err(format!("{s:?} is rejected for {a:?} instead of {b:?}").into());
				}
				Ok(())
			}
			(Ok(_), Ok(_)) => {
				cov.hit("still correct");
				Ok(())
			}
			(Ok(e), Err(b)) => Err(format!("{s:?} is parsed as {e} instead of the error {b:?}").into()),
			(Err(e), Ok(_)) => Err(format!("{s:?} is rejected: {e}").into()),
		};
	}
	let (e, r) = if mode < 7 {
		let s = rx::gen(rng, 3);
		cov.case = format!("parsed {s:?}");
		let r = match Rx::parse(&s) {
			Ok(r) => r,
			Err(_) => return Err(Bad::Skip("source")),
		};
		if r.weight() > if small() { 12 } else { 60 } || !r.tame(if small() { 40 } else { 300 }) {
			return Err(Bad::Skip("too large"));
		}
		if r.has_empty_class() {
			return Err(Bad::Skip("empty class"));
		}
		let e = match guard("parse", || RegExp::parse(&s))? {
			Ok(e) => e,
			Err(e) => return Err(format!("{s:?} is rejected: {e}").into()),
		};
		(e, r)
	} else {
		let (e, r) = guard("assembling", || assembled(rng, 3))?;
		cov.case = format!("assembled {r:?}");
		if r.weight() > if small() { 12 } else { 60 } || !r.tame(if small() { 40 } else { 300 }) {
			return Err(Bad::Skip("too large"));
		}
		if r.has_empty_class() {
			return Err(Bad::Skip("empty class"));
		}
		(e, r)
	};
	let mut words = rx::words(&r, rng, if small() { 6 } else { 40 });
	let mut alphabet = vec!['a', 'b'];
	for w in &words {
		alphabet.extend(w.chars().filter(|_| rng.pct(10)));
	}
	rng.shuffle(&mut alphabet);
	alphabet.truncate(4);
	alphabet.sort();
	alphabet.dedup();
	words.extend(all_words(&alphabet, if small() { 1 } else { 3 }));
	let d = guard("build", || e.build())?;
	let (yes, no) = same_language("automaton", &d, &r, &words, cov)?;
	if yes > 0 && no > 0 {
		cov.observe(&cov.case.clone());
		let c = cov.case.clone();
		cov.sample(|| format!("{c}: {yes} words accepted, {no} rejected"));
	}
	check_singleton(&e, &r, &words, cov)?;
	let simple = guard("simplified", || e.clone().simplified())?;
	same_language("simplified", &guard("build", || simple.build())?, &r, &words, cov)?;
	if mode < 7 {
		// printed and read again.
		let text = guard("display", || e.to_string())?;
		let again = match guard("parse", || RegExp::parse(&text))? {
			Ok(e) => e,
			Err(e) => return Err(format!("printed as {text:?}, which is rejected: {e}").into()),
		};
		same_language(&format!("printed as {text:?}"), &guard("build", || again.build())?, &r, &words, cov)?;
		match Rx::parse(&text) {
			Ok(t) => {
				for w in &words {
					if t.matches(w) != r.matches(w) {
						return Err(format!("printed as {text:?}, which differs on {w:?}").into());
					}
				}
			}
			Err(_) => return Err(format!("printed as {text:?}").into()),
		}
		let js = serde_json::to_string(&e).map_err(|e| e.to_string())?;
		let back: RegExp = serde_json::from_str(&js).map_err(|e| e.to_string())?;
		same_language("serde", &guard("build", || back.build())?, &r, &words, cov)?;
		if rng.pct(30) {
			// enforced by layouts.
			let doc = J::Obj(vec![
				("type".into(), J::str("string")),
				("id".into(), J::str("https://example.org/l")),
				("pattern".into(), J::str(&text)),
				("resource".into(), J::str("_:x")),
				("input".into(), J::Arr(vec![J::str("x")])),
			]);
			let (layouts, refs) = guard("build", || real::build(&[doc.print()]))?.map_err(|e| format!("layout rejected: {e}"))?;
			for _ in 0..4 {
				let w = rng.pick(&words).clone();
				let v = Value::Literal(Literal::TextString(w.clone()));
				let r2 = guard("dehydrate", || {
					tl::distill::dehydrate(&layouts, &v, &refs[0], Default::default()).map(|_| ()).map_err(|e| e.to_string())
				})?;
				cov.eval();
				cov.hit("words checked by a layout");
				if r2.is_ok() != r.matches(&w) {
					return Err(format!("the layout with pattern {text:?} on {w:?}: {r2:?}").into());
				}
			}
		}
	}
	Ok(())
}

// Automata.

#[derive(Debug, Clone, Hash)]
struct Nfa {
	n: u8,
	edges: Vec<(u8, Option<Vec<(char, char)>>, u8)>,
	initial: Vec<u8>,
	finals: Vec<u8>,
}

const BOUNDS: &[char] = &['\0', 'a', 'b', 'c', 'd', 'e', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];

impl Nfa {
	fn random(rng: &mut Rng) -> Nfa {
		let n = rng.range(1, 5) as u8;
		let q = |rng: &mut Rng| rng.below(n as usize) as u8;
		let m = rng.below(2 * n as usize + 3);
		let eps = *rng.pick(&[0, 15, 40]);
		let edges = (0..m)
			.map(|_| {
				let label = if rng.pct(eps) {
					None
				} else {
					Some(
						(0..rng.range(1, 2))
							.map(|_| {
								let a = *rng.pick(BOUNDS);
								let b = if rng.pct(40) { a } else { *rng.pick(BOUNDS) };
								(a.min(b), a.max(b))
							})
							.collect(),
					)
				};
				(q(rng), label, q(rng))
			})
			.collect();
		let initial = (0..rng.range(1, 2)).map(|_| q(rng)).collect();
		let finals = (0..rng.range(1, 2)).map(|_| q(rng)).collect();
		Nfa { n, edges, initial, finals }
	}

	fn build(&self) -> Automaton<u8> {
		let mut a = Automaton::new();
		for (s, l, t) in &self.edges {
			a.add(*s, l.as_ref().map(|l| set(l, false)), *t);
		}
		for q in &self.initial {
			a.add_initial_state(*q);
		}
		for q in &self.finals {
			a.add_final_state(*q);
		}
		a
	}

	fn close(&self, mut qs: u32) -> u32 {
		loop {
			let mut next = qs;
			for (s, l, t) in &self.edges {
				if l.is_none() && qs & (1 << s) != 0 {
					next |= 1 << t;
				}
			}
			if next == qs {
				break qs;
			}
			qs = next;
		}
	}

	fn contains(&self, w: &str) -> bool {
		let mut qs = self.close(self.initial.iter().fold(0, |a, q| a | 1 << q));
		for c in w.chars() {
			let mut next = 0;
			for (s, l, t) in &self.edges {
				if let Some(l) = l {
					if qs & (1 << s) != 0 && l.iter().any(|(a, b)| *a <= c && c <= *b) {
						next |= 1 << t;
					}
				}
			}
			qs = self.close(next);
		}
		self.finals.iter().any(|q| qs & (1 << q) != 0)
	}
}

fn intersect(a: &AnyRange<char>, b: &AnyRange<char>) -> Option<AnyRange<char>> {
	let lo = a.first()?.max(b.first()?);
	let hi = a.last()?.min(b.last()?);
	(lo <= hi).then(|| AnyRange::from(lo..=hi))
}

fn agree<Q: Ord>(what: &str, d: &DetAutomaton<Q>, words: &[String], expected: impl Fn(usize) -> bool, cov: &mut Cov) -> Case {
	cov.hit(what);
	for (i, w) in words.iter().enumerate() {
		cov.eval();
		if d.contains(w) != expected(i) {
			return Err(format!("{what}: {w:?} is {}", if expected(i) { "rejected" } else { "accepted" }).into());
		}
	}
	Ok(())
}

/// Number of classes of the coarsest stable refinement of the partition by
/// finality of the reachable states, labels being opaque symbols.
fn moore(d: &DetAutomaton<u16>) -> usize {
	let mut states: BTreeSet<u16> = BTreeSet::new();
	let mut stack = vec![*d.initial_state()];
	while let Some(q) = stack.pop() {
		if states.insert(q) {
			if let Some(t) = d.transitions().get(&q) {
				stack.extend(t.values());
			}
		}
	}
	let mut class: BTreeMap<u16, usize> = states.iter().map(|q| (*q, d.final_states().contains(q) as usize)).collect();
	loop {
		let mut ids: BTreeMap<(usize, Vec<(AnyRange<char>, usize)>), usize> = BTreeMap::new();
		let mut next = BTreeMap::new();
		for q in &states {
			let out = d.transitions().get(q).map(|t| t.iter().map(|(l, r)| (*l, class[r])).collect()).unwrap_or_default();
			let n = ids.len();
			next.insert(*q, *ids.entry((class[q], out)).or_insert(n));
		}
		let before = class.values().collect::<BTreeSet<_>>().len();
		class = next;
		if ids.len() == before {
			return before;
		}
	}
}

/// Checks that the labels leaving a state are disjoint.
fn deterministic<Q: Ord>(d: &DetAutomaton<Q>) -> Case {
	for t in d.transitions().values() {
		let l: Vec<_> = t.keys().collect();
		for i in 0..l.len() {
			for j in 0..i {
				if intersect(l[i], l[j]).is_some() {
					return Err(format!("overlapping labels {:?} and {:?}", l[i], l[j]).into());
				}
			}
		}
	}
	Ok(())
}

fn p14(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	let a = Nfa::random(rng);
	let b = Nfa::random(rng);
	cov.case = format!("{a:?}\n{b:?}");
	let mut alphabet = BOUNDS.to_vec();
	alphabet.extend(['f', '\u{1}', '\u{d7fe}', '\u{e001}']);
	rng.shuffle(&mut alphabet);
	alphabet.truncate(5);
	let mut words = all_words(&alphabet, if small() { 1 } else { 3 });
	let short = alphabet[..2].to_vec();
	words.extend(all_words(&short, if small() { 2 } else { 6 }));
	let in_a: Vec<bool> = words.iter().map(|w| a.contains(w)).collect();
	let in_b: Vec<bool> = words.iter().map(|w| b.contains(w)).collect();
	let yes = in_a.iter().filter(|x| **x).count();
	if yes > 0 && yes < words.len() {
		cov.observe(&a);
		let c = cov.case.clone();
		cov.sample(|| format!("{c}: {yes} of {} words accepted", words.len()));
	}
	let (na, nb) = (a.build(), b.build());
	let da = guard("determinize", || na.determinize())?;
	let db = guard("determinize", || nb.determinize())?;
	agree("determinize", &da, &words, |i| in_a[i], cov)?;
	deterministic(&da)?;
	// product of the non deterministic automata.
	let p = guard("product", || na.product(&nb, |x, y| (*x, *y)))?;
	let dp = guard("determinize", || p.determinize())?;
	agree("product", &dp, &words, |i| in_a[i] && in_b[i], cov)?;
	// product of the deterministic automata.
	let q = guard("deterministic product", || da.product(&db, |x, y| (x.clone(), y.clone()), intersect))?;
	agree("deterministic product", &q, &words, |i| in_a[i] && in_b[i], cov)?;
	// mapped states.
	let numbered = |d: &DetAutomaton<BTreeSet<&u8>>, k: u16| {
		let mut n = 1000u16;
		d.map(
			|_| {
				n = n.wrapping_add(k);
				n
			},
			|l| *l,
		)
	};
	let k = *rng.pick(&[1u16, 7, 65535]);
	let m = guard("map", || numbered(&da, k))?;
	agree("map", &m, &words, |i| in_a[i], cov)?;
	if m.states().len() != da.states().len() {
		return Err("map: number of states".to_string().into());
	}
	let mut n = 0u16;
	let t = guard("try_map", || {
		da.try_map(
			|_| {
				n += 1;
				Ok::<_, ()>(n)
			},
			|l| Ok(*l),
		)
	})?;
	match t {
		Ok(t) => agree("try_map", &t, &words, |i| in_a[i], cov)?,
		Err(()) => return Err("try_map fails".to_string().into()),
	}
	let fail = rng.below(da.states().len());
	let mut n = 0;
	let t = guard("try_map", || {
		da.try_map(
			|_| {
				n += 1;
				if n > fail {
					Err(n)
				} else {
					Ok(n)
				}
			},
			|l| Ok(*l),
		)
	})?;
	if t.map(|_| ()) != Err(fail + 1) {
		return Err("try_map does not return the error".to_string().into());
	}
	// reachable states.
	let reach: BTreeSet<u16> = {
		let mut seen = BTreeSet::new();
		let mut stack = vec![*m.initial_state()];
		while let Some(q) = stack.pop() {
			if seen.insert(q) {
				stack.extend(m.transitions_from(&q).map(|(_, r)| *r));
			}
		}
		seen
	};
	let states: BTreeSet<u16> = m.states().into_iter().copied().collect();
	let iterated: Vec<u16> = m.reachable_states_from(m.initial_state()).copied().collect();
	let odd: BTreeSet<u16> = m.select_states(|q| q % 2 == 1).into_iter().copied().collect();
	cov.eval();
	if states != reach || iterated.len() != reach.len() || iterated.iter().any(|q| !reach.contains(q)) {
		return Err(format!("states: {states:?}, {iterated:?} instead of {reach:?}").into());
	}
	if odd != reach.iter().filter(|q| *q % 2 == 1).copied().collect() {
		return Err(format!("selected states: {odd:?} of {reach:?}").into());
	}
	// minimization.
	let part = guard("partition", || m.partition(|q| m.is_final_state(q)))?;
	for q in &reach {
		let f = m.is_final_state(q);
		if !part.get(&f).is_some_and(|s| s.contains(q)) || part.get(&!f).is_some_and(|s| s.contains(q)) {
			return Err(format!("partition: {part:?}").into());
		}
	}
	let min = guard("minimize", || m.minimize(part.into_values()))?;
	let mut n = 0;
	let min = min.map(
		|_| {
			n += 1;
			n
		},
		|l| **l,
	);
	agree("minimize", &min, &words, |i| in_a[i], cov)?;
	let expected = moore(&m);
	if min.states().len() != expected {
		return Err(format!("minimize: {} states instead of {expected}", min.states().len()).into());
	}
	// compression.
	let c = guard("compress", || m.compress(|label: &mut Vec<AnyRange<char>>, l| label.push(*l)))?;
	cov.hit("compress");
	for (i, w) in words.iter().enumerate() {
		let w: Vec<char> = w.chars().collect();
		let mut reached: Vec<BTreeSet<u16>> = vec![BTreeSet::new(); w.len() + 1];
		reached[0].insert(*c.initial_state());
		for j in 0..=w.len() {
			for q in reached[j].clone() {
				for (label, r) in c.transitions_from(&q) {
					if j + label.len() <= w.len() && label.iter().enumerate().all(|(k, l)| l.contains(&w[j + k])) {
						reached[j + label.len()].insert(*r);
					}
				}
			}
		}
		cov.eval();
		let got = reached[w.len()].iter().any(|q| c.is_final_state(q));
		if got != in_a[i] {
			return Err(format!("compress: {w:?} is {}", if in_a[i] { "rejected" } else { "accepted" }).into());
		}
	}
	// serialization.
	let labelled = m.map(|q| *q, |l| (l.first().unwrap() as u32, l.last().unwrap() as u32));
	let js = serde_json::to_string(&labelled).map_err(|e| e.to_string())?;
	let back: DetAutomaton<u16, (u32, u32)> = serde_json::from_str(&js).map_err(|e| e.to_string())?;
	cov.eval();
	if back != labelled {
		return Err(format!("serialized as {js}, read as {back:?}").into());
	}
	edited(rng, cov)?;
	accessors(&na, &a, cov)
}

/// Histories of editions of a deterministic automaton.
fn edited(rng: &mut Rng, cov: &mut Cov) -> Case {
	let n = rng.range(1, 5);
	let initial = rng.below(n);
	let mut d: DetAutomaton<usize, char> = DetAutomaton::new(initial);
	let mut finals: BTreeSet<usize> = BTreeSet::new();
	let mut edges: BTreeMap<usize, BTreeMap<char, usize>> = BTreeMap::new();
	let mut log = String::new();
	for _ in 0..rng.range(1, 14) {
		let q = rng.below(n);
		match rng.below(6) {
			0 => {
				log.push_str(&format!("final {q}\n"));
				if d.add_final_state(q) != finals.insert(q) {
					return Err(format!("{log}: wrong result").into());
				}
			}
			1 => {
				log.push_str(&format!("toggle final {q}\n"));
				if finals.contains(&q) {
					finals.remove(&q);
					d.final_states_mut().remove(&q);
				} else {
					finals.insert(q);
					d.final_states_mut().insert(q);
				}
			}
			2 => {
				log.push_str(&format!("declare {q}\n"));
				edges.entry(q).or_default();
				d.declare_state(q);
			}
			_ => {
				let (l, t) = (*rng.pick(&['a', 'b', '\u{10ffff}']), rng.below(n));
				log.push_str(&format!("{q} -{l}-> {t}\n"));
				edges.entry(q).or_default().insert(l, t);
				d.add(q, l, t);
			}
		}
	}
	cov.eval();
	let what = if d.initial_state() != &initial {
		"initial_state"
	} else if d.final_states() != &finals {
		"final_states"
	} else if !d.transitions().iter().filter(|t| !t.1.is_empty()).eq(edges.iter().filter(|t| !t.1.is_empty())) {
		"transitions"
	} else if d != DetAutomaton::from_parts(initial, finals.clone(), d.transitions().clone()) {
		"from_parts"
	} else {
		""
	};
	if !what.is_empty() {
		return Err(format!("{log}{what}: {d:?}").into());
	}
	for q in 0..n {
		let out: Vec<(char, usize)> = edges.get(&q).into_iter().flatten().map(|(l, t)| (*l, *t)).collect();
		let from: Vec<(char, usize)> = d.transitions_from(&q).map(|(l, t)| (*l, *t)).collect();
		let succ: Vec<(char, usize)> = d.successors(&q).map(|(l, t)| (*l, *t)).collect();
		let mut reach = BTreeSet::new();
		let mut stack = vec![q];
		while let Some(q) = stack.pop() {
			if reach.insert(q) {
				stack.extend(edges.get(&q).into_iter().flatten().map(|(_, t)| *t));
			}
		}
		let got: Vec<usize> = d.reachable_states_from(&q).copied().collect();
		let what = if d.is_initial_state(&q) != (q == initial) {
			"is_initial_state"
		} else if d.is_final_state(&q) != finals.contains(&q) {
			"is_final_state"
		} else if from != out {
			"transitions_from"
		} else if succ != out {
			"successors"
		} else if got.len() != reach.len() || got.iter().any(|q| !reach.contains(q)) {
			"reachable_states_from"
		} else {
			continue;
		};
		return Err(format!("{log}{what} of {q}: {d:?}").into());
	}
	cov.hit("edited");
	Ok(())
}

/// Description of a non deterministic automaton.
fn accessors(real: &Automaton<u8>, a: &Nfa, cov: &mut Cov) -> Case {
	type Edges = BTreeMap<u8, BTreeMap<Option<RangeSet<char>>, BTreeSet<u8>>>;
	let mut edges: Edges = BTreeMap::new();
	for (s, l, t) in &a.edges {
		edges.entry(*s).or_default().entry(l.as_ref().map(|l| set(l, false))).or_default().insert(*t);
	}
	let mut got: Edges = BTreeMap::new();
	for (q, t) in real.transitions() {
		got.insert(*q, t.clone());
	}
	got.retain(|_, t| !t.is_empty());
	edges.retain(|_, t| !t.is_empty());
	cov.eval();
	if got != edges {
		return Err(format!("transitions: {got:?} instead of {edges:?}").into());
	}
	let finals: BTreeSet<u8> = a.finals.iter().copied().collect();
	for q in 0..a.n as u8 {
		let succ: BTreeMap<_, _> = real.successors(&q).map(|(l, t)| (l.clone(), t.clone())).collect();
		if real.is_initial_state(&q) != a.initial.contains(&q)
			|| real.is_final_state(&q) != finals.contains(&q)
			|| &succ != edges.get(&q).unwrap_or(&BTreeMap::new())
		{
			return Err(format!("state {q} is described by {succ:?}").into());
		}
	}
	if real.final_states() != &finals {
		return Err(format!("final states: {:?}", real.final_states()).into());
	}
	cov.hit("described");
	Ok(())
}
