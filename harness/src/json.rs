//! Minimal JSON tree keeping the order (and duplicates) of object entries.
use crate::rng::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
	Null,
	Bool(bool),
	Num(String),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}

pub fn quote(s: &str, out: &mut String) {
	out.push('"');
	for c in s.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			'\r' => out.push_str("\\r"),
			'\t' => out.push_str("\\t"),
			c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
			c => out.push(c),
		}
	}
	out.push('"');
}

impl J {
	pub fn str(s: impl Into<String>) -> J {
		J::Str(s.into())
	}

	pub fn print(&self) -> String {
		let mut out = String::new();
		self.write(&mut out);
		out
	}

	fn write(&self, out: &mut String) {
		match self {
			J::Null => out.push_str("null"),
			J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
			J::Num(n) => out.push_str(n),
			J::Str(s) => quote(s, out),
			J::Arr(a) => {
				out.push('[');
				for (i, x) in a.iter().enumerate() {
					if i > 0 {
						out.push_str(", ");
					}
					x.write(out);
				}
				out.push(']');
			}
			J::Obj(o) => {
				out.push('{');
				for (i, (k, x)) in o.iter().enumerate() {
					if i > 0 {
						out.push_str(", ");
					}
					quote(k, out);
					out.push_str(": ");
					x.write(out);
				}
				out.push('}');
			}
		}
	}

	/// Shuffles the entries of all the objects.
	pub fn shuffle(&mut self, rng: &mut Rng) {
		match self {
			J::Arr(a) => a.iter_mut().for_each(|x| x.shuffle(rng)),
			J::Obj(o) => {
				rng.shuffle(o);
				o.iter_mut().for_each(|(_, x)| x.shuffle(rng))
			}
			_ => (),
		}
	}

	pub fn get(&self, key: &str) -> Option<&J> {
		match self {
			J::Obj(o) => o.iter().find(|(k, _)| k == key).map(|(_, v)| v),
			_ => None,
		}
	}
}
