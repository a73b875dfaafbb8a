//! Reference regular expressions: parser, matcher and sampler.
//!
//! Independent of the automaton based implementation of TreeLDR: words are
//! recognized by computing sets of reachable positions.
use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq)]
pub enum Rx {
	Any,
	Set(bool, Vec<(char, char)>),
	Seq(Vec<Rx>),
	Alt(Vec<Rx>),
	/// Repetition, with no upper bound if the last component is `true`, or an
	/// upper bound of 1 otherwise.
	Rep(Box<Rx>, u32, bool),
	/// Bounded repetition.
	Bounded(Box<Rx>, u32, u32),
}

struct Thompson {
	count: usize,
	edges: Vec<(usize, Option<(bool, Vec<(char, char)>)>, usize)>,
}

impl Thompson {
	fn state(&mut self) -> usize {
		self.count += 1;
		self.count - 1
	}
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RxErr {
	Unmatched,
	Missing,
	Escape,
	Charset,
}

fn escape(it: &mut impl Iterator<Item = char>) -> Result<char, RxErr> {
	Ok(match it.next().ok_or(RxErr::Escape)? {
		'0' => '\0',
		'a' => '\x07',
		'b' => '\x08',
		't' => '\t',
		'n' => '\n',
		'v' => '\x0b',
		'f' => '\x0c',
		'r' => '\r',
		'e' => '\x1b',
		c => c,
	})
}

impl Rx {
	pub fn parse(s: &str) -> Result<Rx, RxErr> {
		let mut it = s.chars().peekable();
		let r = Self::alt(&mut it, 0)?;
		Ok(r)
	}

	fn alt(it: &mut std::iter::Peekable<std::str::Chars>, depth: usize) -> Result<Rx, RxErr> {
		let mut alts = Vec::new();
		let mut seq: Vec<Rx> = Vec::new();
		loop {
			match it.next() {
				None => {
					if depth > 0 {
						return Err(RxErr::Missing);
					}
					break;
				}
				Some(')') => {
					if depth == 0 {
						return Err(RxErr::Unmatched);
					}
					break;
				}
				Some('|') => alts.push(Rx::Seq(std::mem::take(&mut seq))),
				Some('(') => seq.push(Self::alt(it, depth + 1)?),
				Some('[') => seq.push(Self::class(it)?),
				Some('.') => seq.push(Rx::Any),
				Some('\\') => {
					let c = escape(it)?;
					seq.push(Rx::Set(false, vec![(c, c)]))
				}
				Some(q @ ('?' | '*' | '+')) => {
					let (min, inf) = match q {
						'?' => (0, false),
						'*' => (0, true),
						_ => (1, true),
					};
					let last = seq.pop().unwrap_or(Rx::Seq(vec![]));
					seq.push(Rx::Rep(Box::new(last), min, inf))
				}
				Some(c) => seq.push(Rx::Set(false, vec![(c, c)])),
			}
		}
		alts.push(Rx::Seq(seq));
		Ok(Rx::Alt(alts))
	}

	fn class(it: &mut std::iter::Peekable<std::str::Chars>) -> Result<Rx, RxErr> {
		let mut neg = false;
		if it.peek() == Some(&'^') {
			it.next();
			neg = true;
		}
		let mut items = Vec::new();
		loop {
			let c = match it.next().ok_or(RxErr::Charset)? {
				']' => break,
				'\\' => escape(it)?,
				c => c,
			};
			if it.peek() == Some(&'-') {
				it.next();
				let d = match it.next().ok_or(RxErr::Charset)? {
					'\\' => escape(it)?,
					d => d,
				};
				items.push((c, d));
			} else {
				items.push((c, c));
			}
		}
		Ok(Rx::Set(neg, items))
	}

	fn accepts(neg: bool, items: &[(char, char)], c: char) -> bool {
		items.iter().any(|(a, b)| *a <= c && c <= *b) != neg
	}

	fn step(&self, s: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
		match self {
			Rx::Any => from
				.iter()
				.filter(|i| **i < s.len())
				.map(|i| i + 1)
				.collect(),
			Rx::Set(neg, items) => from
				.iter()
				.filter(|i| **i < s.len() && Self::accepts(*neg, items, s[**i]))
				.map(|i| i + 1)
				.collect(),
			Rx::Seq(items) => {
				let mut cur = from.clone();
				for i in items {
					if cur.is_empty() {
						break;
					}
					cur = i.step(s, &cur);
				}
				cur
			}
			Rx::Alt(items) => items.iter().flat_map(|i| i.step(s, from)).collect(),
			Rx::Rep(e, min, inf) => {
				let mut cur = from.clone();
				for _ in 0..*min {
					cur = e.step(s, &cur);
				}
				let mut all = cur.clone();
				if *inf {
					loop {
						let next: BTreeSet<_> = e
							.step(s, &cur)
							.into_iter()
							.filter(|i| !all.contains(i))
							.collect();
						if next.is_empty() {
							break;
						}
						all.extend(next.iter().copied());
						cur = next;
					}
				} else {
					all.extend(e.step(s, &cur));
				}
				all
			}
			Rx::Bounded(e, min, max) => {
				let mut cur = from.clone();
				for _ in 0..*min {
					cur = e.step(s, &cur);
				}
				let mut all = cur.clone();
				for _ in *min..*max {
					cur = e.step(s, &cur);
					all.extend(cur.iter().copied());
				}
				all
			}
		}
	}

	/// Adds the expression to an automaton, between two states.
	fn states(&self, n: &mut Thompson, from: usize, to: usize) {
		match self {
			Rx::Any => n.edges.push((from, Some((true, Vec::new())), to)),
			Rx::Set(neg, s) => n.edges.push((from, Some((*neg, s.clone())), to)),
			Rx::Seq(items) => {
				let mut cur = from;
				for i in items {
					let next = n.state();
					i.states(n, cur, next);
					cur = next;
				}
				n.edges.push((cur, None, to));
			}
			Rx::Alt(items) => items.iter().for_each(|i| i.states(n, from, to)),
			Rx::Rep(e, min, inf) => {
				let mut cur = from;
				for _ in 0..*min {
					let next = n.state();
					e.states(n, cur, next);
					cur = next;
				}
				n.edges.push((cur, None, to));
				let next = n.state();
				if *inf {
					n.edges.push((cur, None, next));
					e.states(n, next, next);
				} else {
					e.states(n, cur, next);
				}
				n.edges.push((next, None, to));
			}
			Rx::Bounded(e, min, max) => {
				let mut cur = from;
				for i in 0..*max {
					if i >= *min {
						n.edges.push((cur, None, to));
					}
					let next = n.state();
					e.states(n, cur, next);
					cur = next;
				}
				n.edges.push((cur, None, to));
			}
		}
	}

	/// Does the deterministic automaton of the expression have at most `limit`
	/// states?
	pub fn tame(&self, limit: usize) -> bool {
		let mut n = Thompson { count: 2, edges: Vec::new() };
		self.states(&mut n, 0, 1);
		let mut bounds: BTreeSet<char> = ['\0'].into();
		for (_, l, _) in &n.edges {
			for (a, b) in l.iter().flat_map(|(_, s)| s) {
				bounds.insert(*a);
				bounds.extend(char::from_u32(*b as u32 + 1));
			}
		}
		let close = |mut set: BTreeSet<usize>| {
			let mut todo: Vec<_> = set.iter().copied().collect();
			while let Some(q) = todo.pop() {
				for (a, l, b) in &n.edges {
					if *a == q && l.is_none() && set.insert(*b) {
						todo.push(*b);
					}
				}
			}
			set
		};
		let start = close([0].into());
		let mut seen: BTreeSet<_> = [start.clone()].into();
		let mut todo = vec![start];
		while let Some(set) = todo.pop() {
			for c in &bounds {
				let next: BTreeSet<usize> = n
					.edges
					.iter()
					.filter(|(a, l, _)| {
						set.contains(a)
							&& l.as_ref().is_some_and(|(neg, s)| s.iter().any(|(x, y)| x <= c && c <= y) != *neg)
					})
					.map(|(_, _, b)| *b)
					.collect();
				let next = close(next);
				if !seen.contains(&next) {
					if seen.len() >= limit {
						return false;
					}
					seen.insert(next.clone());
					todo.push(next);
				}
			}
		}
		true
	}

	pub fn matches(&self, s: &str) -> bool {
		let s: Vec<char> = s.chars().collect();
		self.step(&s, &[0].into_iter().collect()).contains(&s.len())
	}

	/// Samples a word of the language (`None` if a sampled class is empty).
	pub fn sample(&self, rng: &mut Rng, out: &mut String) -> Option<()> {
		match self {
			Rx::Any => {
				out.push(*rng.pick(&['a', 'b', 'c', '0', ' ', '.', '\n', 'é', '\u{10ffff}', '-']));
				Some(())
			}
			Rx::Set(false, items) => {
				if items.is_empty() {
					return None;
				}
				let (a, b) = *rng.pick(items);
				if a > b {
					return None;
				}
				let c = match rng.below(4) {
					0 => a,
					1 => b,
					_ => {
						let n = b as u32 - a as u32 + 1;
						char::from_u32(a as u32 + rng.below(n as usize) as u32).unwrap_or(a)
					}
				};
				out.push(c);
				Some(())
			}
			Rx::Set(true, items) => {
				for _ in 0..20 {
					let c = match rng.below(3) {
						0 => *rng.pick(&['a', 'b', 'c', 'd', '0', '9', ' ', 'é', '\u{10ffff}', '\0']),
						1 => char::from_u32(rng.below(128) as u32).unwrap(),
						_ => {
							let (a, b) = match items.is_empty() {
								true => ('a', 'z'),
								false => *rng.pick(items),
							};
							let c = if rng.pct(50) { a as u32 - (a as u32 > 0) as u32 } else { b as u32 + 1 };
							char::from_u32(c).unwrap_or('x')
						}
					};
					if Self::accepts(true, items, c) {
						out.push(c);
						return Some(());
					}
				}
				None
			}
			Rx::Seq(items) => {
				for i in items {
					i.sample(rng, out)?
				}
				Some(())
			}
			Rx::Alt(items) => rng.pick(items).sample(rng, out),
			Rx::Rep(e, min, inf) => {
				let n = if *inf {
					*min as usize + *rng.pick(&[0, 0, 1, 1, 2, 3])
				} else {
					rng.below(2).max(*min as usize)
				};
				for _ in 0..n {
					e.sample(rng, out)?
				}
				Some(())
			}
			Rx::Bounded(e, min, max) => {
				for _ in 0..rng.range(*min as usize, *max as usize) {
					e.sample(rng, out)?
				}
				Some(())
			}
		}
	}

	/// The single word of the language, if that is obvious.
	pub fn single(&self, out: &mut String) -> Option<()> {
		match self {
			Rx::Set(false, items) => {
				let (a, b) = *items.first()?;
				if a != b || items.iter().any(|i| *i != (a, a)) {
					return None;
				}
				out.push(a);
				Some(())
			}
			Rx::Seq(items) => items.iter().try_for_each(|i| i.single(out)),
			Rx::Alt(items) if items.len() == 1 => items[0].single(out),
			Rx::Bounded(e, min, max) if min == max && *min > 0 => (0..*min).try_for_each(|_| e.single(out)),
			_ => None,
		}
	}

	/// Is there a class without characters?
	pub fn has_empty_class(&self) -> bool {
		match self {
			Rx::Any => false,
			Rx::Set(neg, items) => {
				let next = |c: char| match c {
					'\u{d7ff}' => Some('\u{e000}'),
					c => char::from_u32(c as u32 + 1),
				};
				let mut candidates = vec!['\0'];
				for (a, b) in items {
					candidates.push(*a);
					candidates.extend(next(*b));
				}
				!candidates.into_iter().any(|c| Self::accepts(*neg, items, c))
			}
			Rx::Seq(i) | Rx::Alt(i) => i.iter().any(Self::has_empty_class),
			Rx::Rep(e, ..) | Rx::Bounded(e, ..) => e.has_empty_class(),
		}
	}

	/// Number of nodes, unfolding the repetitions.
	pub fn weight(&self) -> usize {
		match self {
			Rx::Any | Rx::Set(..) => 1,
			Rx::Seq(i) | Rx::Alt(i) => i.iter().map(Self::weight).sum::<usize>() + 1,
			Rx::Rep(e, ..) => e.weight() + 1,
			Rx::Bounded(e, _, max) => e.weight() * (*max as usize).max(1) + 1,
		}
	}
}

/// Generates the source of a regular expression (never with an empty class).
pub fn gen(rng: &mut Rng, depth: usize) -> String {
	fn ch(rng: &mut Rng) -> String {
		match rng.below(22) {
			// every escape, and the same characters written raw.
			20 => rng
				.pick(&[
					"\\0", "\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r", "\\e", "\\$", "\\^", "\\[", "\\]", "\\)", "\\?", "\\+", "\\{",
					"\\}", "\\-", "\\/", "\\é", "\\x", "\\d", "\\s", "\\w", "\\u", "\\N", "\\T", "\\1", "\\ ",
				])
				.to_string(),
			21 => rng
				.pick(&[
					"\0", "\x07", "\x08", "\t", "\n", "\x0b", "\x0c", "\r", "\x1b", "^", "]", "{", "}", ",", "e", "t", "r", "n", "f", "v", "\u{a0}", "\u{2028}",
					"\u{feff}", "\u{10ffff}", "=", "!", "<", "&", "#", "~", "`", "@", "%", "$", "b", "a", "0", "u{0061}", "\"", "'",
				])
				.to_string(),
			0 => "\\.".into(),
			1 => "\\*".into(),
			2 => "\\\\".into(),
			3 => "\\n".into(),
			4 => "-".into(),
			5 => "é".into(),
			6 => "\\(".into(),
			7 => "\\|".into(),
			8 => "/".into(),
			9 => ":".into(),
			_ => rng.pick(&["a", "b", "c", "0", "1"]).to_string(),
		}
	}
	fn class(rng: &mut Rng) -> String {
		loop {
			let s = any_class(rng);
			if Rx::parse(&s).is_ok_and(|r| !r.has_empty_class()) {
				return s;
			}
		}
	}
	fn any_class(rng: &mut Rng) -> String {
		if rng.pct(5) {
			return rng
				.pick(&["[^]", "[\\0-\u{10ffff}]", "[\\0-\u{d7ff}\u{e000}-\u{10ffff}]", "[b-\u{10ffff}\\0-a]", "[^\\0]", "[^\u{10ffff}]"])
				.to_string();
		}
		let mut s = String::from("[");
		if rng.pct(25) {
			s.push('^');
		}
		for _ in 0..rng.range(1, 3) {
			match rng.below(7) {
				6 => s.push_str(rng.pick(&["^", "^", "-", "^-a", "A-^", "\\^-a", "?", "{", ",", "a-c-", "#"])),
				0 => s.push_str("a-c"),
				1 => s.push_str("0-9"),
				2 => s.push_str(rng.pick(&["b-b", "A-Z", "\\0-a", " -~", "é-ü", "b-d", "\u{d7ff}-\u{e000}", "a-\u{10ffff}", "+--"])),
				3 if rng.pct(25) => s.push_str(rng.pick(&[
					"\\0", "\\a", "\\b", "\\t", "\\v", "\\f", "\\r", "\\e", "\t", "\r", "\x1b", "\\a-\\r", "\\t-\\n", "\\[", "\\d", "\\é", "\\ -\\~", "e", "\\.", "\\$",
				])),
				3 => s.push_str(rng.pick(&["\\]", "\\\\", "\\-", "\\n", "|", ".", "*", "(", "$", "[", "\\^"])),
				_ => s.push_str(rng.pick(&["a", "b", "c", "0", "z"])),
			}
		}
		s.push(']');
		s
	}
	let mut out = String::new();
	let alts = if depth > 0 { *rng.pick(&[1, 1, 1, 2, 2, 3]) } else { 1 };
	for i in 0..alts {
		if i > 0 {
			out.push('|');
		}
		let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
		for _ in 0..n {
			match rng.below(10) {
				0 => out.push('.'),
				1 | 2 => out.push_str(&class(rng)),
				3 | 4 if depth > 0 => {
					out.push('(');
					out.push_str(&gen(rng, depth - 1));
					out.push(')');
				}
				_ => out.push_str(&ch(rng)),
			}
			if rng.pct(30) {
				out.push_str(rng.pick(&["?", "*", "+"]));
				if rng.pct(8) {
					out.push_str(rng.pick(&["?", "*", "+"]));
				}
			}
		}
	}
	out
}

/// Words to test an expression with: samples, mutated samples and random words.
pub fn words(rx: &Rx, rng: &mut Rng, n: usize) -> Vec<String> {
	let alphabet = ['\u{d7ff}', '\u{e000}', 'a', 'b', 'c', '0', '1', '.', '*', '-', '\n', 'é', ' ', '|', '\\', '(', ']', '^', '[', '{'];
	let mut out = vec![String::new()];
	for _ in 0..n {
		let mut w = String::new();
		match rng.below(4) {
			0 => {
				for _ in 0..rng.below(6) {
					w.push(*rng.pick(&alphabet));
				}
			}
			k => {
				if rx.sample(rng, &mut w).is_none() {
					continue;
				}
				if k == 1 {
					let mut c: Vec<char> = w.chars().collect();
					match rng.below(4) {
						0 if !c.is_empty() => {
							let i = rng.below(c.len());
							c.remove(i);
						}
						1 => {
							let i = rng.below(c.len() + 1);
							c.insert(i, *rng.pick(&alphabet));
						}
						2 if !c.is_empty() => {
							let i = rng.below(c.len());
							let letter = "0abtnvfre".find(|x| escape(&mut [x].into_iter()) == Ok(c[i]));
							c[i] = match letter {
								Some(l) if rng.pct(50) => "0abtnvfre".as_bytes()[l] as char,
								_ => *rng.pick(&alphabet),
							};
						}
						_ => {
							let d = c.clone();
							c.extend(d);
						}
					}
					w = c.into_iter().collect();
				}
			}
		}
		if w.chars().count() <= 40 {
			out.push(w);
		}
	}
	out
}
