//! Generators: layouts, values and datasets.
use crate::ast::*;
use crate::json::J;
use crate::refc::*;
use crate::refhy::{Q, DECIMALS};
use crate::rng::Rng;
use crate::rx;
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{BlankIdBuf, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{Literal, Value};

pub const CBOR_TAG: &str = "https://schema.treeldr.org/cbor#tag";
pub const EX: &str = "https://ex.org/";

pub fn blank(s: &str) -> Term {
	Term::blank(BlankIdBuf::new(format!("_:{s}")).unwrap())
}

#[derive(Clone)]
pub struct Gen {
	/// Named layouts, with their number of inputs.
	pub named: Vec<(String, usize)>,
	/// Layouts defined elsewhere, with their number of inputs.
	pub foreign: Vec<(String, usize)>,
	pub base: Option<String>,
	pub prefixes: BTreeMap<String, String>,
	/// Only generates layouts with which any value can be recovered from its
	/// dehydrated dataset.
	pub strict: bool,
	/// Restricts the layouts to those expressible without prefixes, base...
	pub plain: bool,
	/// Percentage of the layouts with a CBOR tag.
	pub tags: u32,
	pub unique: usize,
	/// Remaining number of layouts to generate.
	pub fuel: usize,
}

/// Variables in scope.
#[derive(Clone, Default)]
pub struct Vars(pub Vec<String>);

impl Vars {
	fn has(&self, n: &str) -> bool {
		self.0.iter().any(|m| m == n)
	}

	fn with(&self, n: &[String]) -> Vars {
		let mut v = self.0.clone();
		v.extend(n.iter().cloned());
		Vars(v)
	}

	/// A variable, by name.
	fn pick(&self, rng: &mut Rng) -> Option<String> {
		if self.0.is_empty() {
			None
		} else {
			Some(rng.pick(&self.0).clone())
		}
	}
}

/// Small cases, for the slowest monitor.
pub fn small() -> bool {
	static SMALL: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
	*SMALL.get_or_init(|| std::env::var_os("VERIF_SMALL").is_some())
}

impl Gen {
	pub fn new(rng: &mut Rng, strict: bool) -> Gen {
		let n = if small() { rng.below(2) } else { *rng.pick(&[0, 0, 1, 1, 2, 3]) };
		Gen {
			named: (0..n)
				.map(|i| {
					(
						format!("{EX}L{i}"),
						if strict { 1 } else { *rng.pick(&[1, 1, 1, 1, 2, 0]) },
					)
				})
				.collect(),
			foreign: Vec::new(),
			base: None,
			prefixes: BTreeMap::new(),
			strict,
			plain: false,
			tags: 0,
			unique: 0,
			fuel: 14,
		}
	}

	/// Reference to the given absolute IRI, in the current scope.
	pub fn iri_ref(&self, rng: &mut Rng, full: &str) -> String {
		let mut options = vec![full.to_string()];
		// an absolute IRI is changed by a prefix named after its scheme.
		let scheme = full.split(':').next().unwrap_or("");
		if self.prefixes.contains_key(scheme) {
			options.clear();
		}
		for (k, v) in &self.prefixes {
			if let Some(rest) = full.strip_prefix(v.as_str()) {
				options.push(format!("{k}:{rest}"));
				options.push(format!("{k}:{rest}"));
			}
		}
		if let Some(b) = &self.base {
			let cands: Vec<String> = match full.strip_prefix(EX) {
				Some(l) => vec![
					l.to_string(),
					format!("./{l}"),
					format!("/{l}"),
					format!("../{l}"),
					format!("//ex.org/{l}"),
					format!("a/../{l}"),
				],
				None => vec![],
			};
			for c in cands {
				if resolve_ref(b, &c) == full {
					options.push(c);
				}
			}
		}
		if options.is_empty() {
			return full.to_string();
		}
		rng.pick(&options).clone()
	}

	fn ex(&self, rng: &mut Rng, local: &str) -> String {
		self.iri_ref(rng, &format!("{EX}{local}"))
	}

	fn prop(&mut self, rng: &mut Rng) -> Pat {
		if self.strict {
			self.unique += 1;
			let n = self.unique;
			Pat::Iri(self.ex(rng, &format!("u{n}")))
		} else {
			let n = rng.below(5);
			Pat::Iri(self.ex(rng, &format!("p{n}")))
		}
	}

	fn rdf_type(&self, rng: &mut Rng) -> Pat {
		Pat::Iri(self.iri_ref(rng, &format!("{RDF}type")))
	}

	fn class(&mut self, rng: &mut Rng) -> Pat {
		if self.strict {
			self.unique += 1;
			let n = self.unique;
			Pat::Iri(self.ex(rng, &format!("C{n}")))
		} else {
			let n = rng.below(3);
			Pat::Iri(self.ex(rng, &format!("T{n}")))
		}
	}

	fn any_pat(&mut self, rng: &mut Rng, vars: &Vars) -> Pat {
		match rng.below(10) {
			0 | 1 => Pat::Iri(self.ex(rng, &format!("n{}", rng.clone().below(4)))),
			2 => Pat::Lit(
				rng.pick(&["a", "1", "true"]).to_string(),
				LitTy::Type(self.iri_ref(rng, &format!("{XSD}string"))),
			),
			3 if rng.pct(40) => Pat::Lit("a".into(), LitTy::Lang("en".into())),
			_ => match vars.pick(rng) {
				Some(v) => Pat::Var(v),
				None => Pat::Iri(self.ex(rng, "n0")),
			},
		}
	}

	fn graph(&mut self, rng: &mut Rng, vars: &Vars) -> Pat {
		match vars.pick(rng) {
			Some(v) if rng.pct(25) => Pat::Var(v),
			_ => Pat::Iri(self.ex(rng, &format!("g{}", rng.clone().below(2)))),
		}
	}

	fn any_quad(&mut self, rng: &mut Rng, vars: &Vars) -> QuadP {
		let p = if rng.pct(85) {
			self.prop(rng)
		} else {
			self.any_pat(rng, vars)
		};
		QuadP(
			self.any_pat(rng, vars),
			p,
			self.any_pat(rng, vars),
			if rng.pct(10) {
				Some(self.graph(rng, vars))
			} else {
				None
			},
		)
	}

	fn extra(&self, rng: &mut Rng) -> Extra {
		match rng.below(5) {
			0 => Extra::Bool(rng.pct(50)),
			1 => Extra::Num(*rng.pick(&[0, 7, -7, 1000, -40000, i64::MIN, i64::MAX, 1 << 35])),
			2 => Extra::Str(rng.pick(&["", "é", "a b", "https://ex.org/n0", "_:self"]).to_string()),
			_ => {
				let t = *rng.pick(&["string", "integer", "date", "token"]);
				Extra::Typed(rng.pick(&["", "12", "x y"]).to_string(), self.iri_ref(rng, &format!("{XSD}{t}")))
			}
		}
	}

	/// Header with `n` inputs. Returns the variables in scope.
	fn header(&mut self, rng: &mut Rng, n: usize, id: Option<String>) -> (Header, Vars) {
		let mut h = Header {
			id,
			..Default::default()
		};
		if !self.plain {
			let outer = self.clone();
			if rng.pct(8) {
				let b = rng
					.pick(&[EX.to_string(), format!("{EX}a/b"), "https://other.org/".to_string()])
					.clone();
				h.base = Some(outer.iri_ref(rng, &b));
				self.base = Some(b);
			}
			if rng.pct(12) {
				let mut opts = vec![
					("ex", EX.to_string()),
					("xsd", XSD.to_string()),
					("p", format!("{EX}p")),
					("rdf", RDF.to_string()),
					("rdf", "https://other.org/".to_string()),
				];
				if !self.strict {
					opts.push(("https", format!("{EX}h/")));
				}
				rng.shuffle(&mut opts);
				for (k, v) in opts.into_iter().take(rng.range(1, 2)) {
					if h.prefixes.iter().any(|(l, _)| l == k) {
						continue;
					}
					h.prefixes.push((k.to_string(), outer.iri_ref(rng, &v)));
					self.prefixes.insert(k.to_string(), v);
				}
			}
		}
		if !self.plain && rng.pct(4) {
			for i in 0..rng.range(1, 2) {
				let local = format!("e{i}");
				let k = self.ex(rng, &local);
				let v = self.extra(rng);
				h.extra.push((k, v));
			}
		}
		if self.tags > 0 && rng.pct(self.tags) {
			let k = self.iri_ref(rng, CBOR_TAG);
			let t = |rng: &mut Rng| rng.pick(&["unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"]).to_string();
			let v = match rng.below(40) {
				0..=19 => Extra::Num(*rng.pick(&[0, 1, 2, 3, 23, 24, 42, 255, 256, 65536, 1 << 40, i64::MAX])),
				20..=34 => {
					let n = *rng.pick(&["0", "5", "42", "007", "18446744073709551615", "4294967296"]);
					let t = t(rng);
					Extra::Typed(n.into(), self.iri_ref(rng, &format!("{XSD}{t}")))
				}
				35 => {
					let t = t(rng);
					let n = *rng.pick(&["-1", "18446744073709551616", "x", "", "1.5", " 5"]);
					Extra::Typed(n.into(), self.iri_ref(rng, &format!("{XSD}{t}")))
				}
				36 => Extra::Num(-5),
				37 => Extra::Str("42".into()),
				38 => Extra::Bool(true),
				_ => {
					let t = self.iri_ref(rng, &format!("{XSD}integer"));
					Extra::Typed("42".into(), t)
				}
			};
			h.extra.push((k, v));
		}
		let mut names: Vec<String> = match n {
			1 if self.strict || rng.pct(75) => vec!["self".into()],
			_ => {
				let mut pool = vec!["self", "a", "b", "c"];
				if n < 4 {
					rng.shuffle(&mut pool);
				}
				(0..n)
					.map(|i| {
						if i > 0 && !self.strict && rng.pct(4) {
							pool[0].to_string()
						} else {
							pool[i % 4].to_string()
						}
					})
					.collect()
			}
		};
		h.input = if names.len() == 1 && names[0] == "self" && rng.pct(70) {
			None
		} else {
			Some(names.clone())
		};
		let first = names.first().cloned();
		if rng.pct(18) {
			for _ in 0..rng.range(1, 2) {
				let x = rng.pick(&["u", "v", "w"]).to_string();
				if h.intro.contains(&x) && (self.strict || rng.pct(80)) {
					continue;
				}
				h.intro.push(x.clone());
				let src = match vars_pick(&names, rng) {
					Some(s) => Pat::Var(s),
					None => Pat::Iri(self.ex(rng, "n0")),
				};
				names.push(x.clone());
				if self.strict || rng.pct(93) {
					let p = self.prop(rng);
					let q = if !self.strict && rng.pct(10) {
						QuadP(Pat::Var(x), p, src, None)
					} else {
						QuadP(src, p, Pat::Var(x), None)
					};
					h.dataset.push(q);
				}
			}
		}
		let vars = Vars(names);
		if rng.pct(15) {
			if let Some(f) = &first {
				let t = self.rdf_type(rng);
				let c = self.class(rng);
				h.dataset.push(QuadP(Pat::Var(f.clone()), t, c, None))
			}
		}
		if !self.strict && rng.pct(4) {
			let q = self.any_quad(rng, &vars);
			h.dataset.push(q)
		}
		if !self.strict && rng.pct(4) {
			if let Some(q) = h.dataset.last_mut() {
				let g = rng.pick(&["g0", "g1"]).to_string();
				let _ = q.3.insert(Pat::Iri(format!("{EX}{g}")));
				if self.prefixes.contains_key("https") {
					q.3 = None
				}
			}
		}
		(h, vars)
	}

	fn literal(&mut self, rng: &mut Rng, n: usize, id: Option<String>) -> Lay {
		let (h, vars) = self.header(rng, n, id);
		let resource = if !h.intro.is_empty() && rng.pct(60) {
			Some(Pat::Var(h.intro[0].clone()))
		} else if n == 0 {
			Some(match vars.pick(rng) {
				Some(v) => Pat::Var(v),
				None => Pat::Lit(
					"1".into(),
					LitTy::Type(self.iri_ref(rng, &format!("{XSD}integer"))),
				),
			})
		} else if n > 1 && rng.pct(50) {
			vars.pick(rng).map(Pat::Var)
		} else if rng.pct(10) {
			Some(Pat::Var(vars.0[0].clone()))
		} else {
			None
		};
		let strict = self.strict;
		match rng.below(12) {
			0 => Lay::Unit(
				h,
				match rng.below(7) {
					0 => None,
					1 => Some(J::Null),
					2 => Some(J::Bool(true)),
					3 => Some(J::Num("12.5".into())),
					4 => Some(J::str("const")),
					5 => Some(J::Arr(vec![J::Num("1".into()), J::str("a")])),
					_ => Some(J::Obj(vec![("a".into(), J::Null), ("b".into(), J::Bool(false))])),
				},
			),
			1 | 2 => {
				let d = match rng.below(if strict { 8 } else { 10 }) {
					0..=5 => None,
					6 | 7 => Some(self.iri_ref(rng, &format!("{XSD}boolean"))),
					_ => Some(self.ex(rng, "dt")),
				};
				Lay::Boolean(h, resource, d)
			}
			3 | 4 => {
				let d = match rng.below(if strict { 9 } else { 10 }) {
					0..=3 => "integer",
					4..=5 => "decimal",
					9 => rng.pick(&["double", "string", "float"]),
					_ => rng.pick(DECIMALS),
				};
				Lay::Number(h, resource, self.iri_ref(rng, &format!("{XSD}{d}")))
			}
			5 => {
				let d = match rng.below(if strict { 9 } else { 10 }) {
					0..=4 => "hexBinary",
					5..=8 => "base64Binary",
					_ => "string",
				};
				Lay::Bytes(h, resource, self.iri_ref(rng, &format!("{XSD}{d}")))
			}
			6..=8 => {
				let d = match rng.below(8) {
					0 => Some(self.ex(rng, "dt")),
					1 => Some(self.iri_ref(rng, &format!("{XSD}string"))),
					2 => Some(self.iri_ref(rng, &format!("{XSD}token"))),
					_ => None,
				};
				let p = if rng.pct(25) { Some(rx::gen(rng, 1)) } else { None };
				Lay::Str(h, resource, d, p)
			}
			_ => {
				let p = if rng.pct(25) {
					Some(
						rng.pick(&[
							"https://ex\\.org/n[0-2]",
							"https://ex\\.org/.*",
							"https?:.+",
							".*",
							"https://ex\\.org/(n0|n1|i[0-9]+)",
						])
						.to_string(),
					)
				} else {
					None
				};
				Lay::Id(h, resource, p)
			}
		}
	}

	/// Reference to a layout with `n` inputs.
	fn lref(&mut self, rng: &mut Rng, n: usize, depth: usize) -> LRef {
		let cands: Vec<String> = self
			.named
			.iter()
			.chain(&self.foreign)
			.filter(|(_, m)| *m == n)
			.map(|(i, _)| i.clone())
			.collect();
		if !cands.is_empty() && rng.pct(if self.foreign.is_empty() { 30 } else { 60 }) {
			let i = rng.pick(&cands).clone();
			return LRef::Ref(self.iri_ref(rng, &i));
		}
		if !self.strict && rng.pct(2) {
			return LRef::Ref(self.ex(rng, "Lundefined"));
		}
		if !self.strict && rng.pct(2) && !self.named.is_empty() {
			let i = rng.pick(&self.named).0.clone();
			return LRef::Ref(self.iri_ref(rng, &i));
		}
		let saved = (self.base.clone(), self.prefixes.clone());
		let l = self.layout(rng, n, depth, None);
		(self.base, self.prefixes) = saved;
		LRef::Inline(Box::new(l))
	}

	/// Component reading from the variables `vars` (the inputs being the
	/// `inputs` first).
	fn comp(&mut self, rng: &mut Rng, vars: &Vars, inputs: usize, depth: usize, variant: bool) -> Comp {
		let required = false;
		let src = |rng: &mut Rng| -> Option<Pat> {
			if inputs > 0 && rng.pct(85) {
				Some(Pat::Var(vars.0[0].clone()))
			} else {
				vars.pick(rng).map(Pat::Var)
			}
		};
		let style = if self.strict {
			if variant {
				*rng.pick(&[1, 1, 1, 0, 2, 4])
			} else {
				*rng.pick(&[0, 0, 0, 0, 0, 2, 3, 4, 5, 6])
			}
		} else if variant {
			*rng.pick(&[1, 1, 1, 1, 1, 0, 0, 2, 3, 4, 7, 8, 9])
		} else {
			*rng.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9])
		};
		let from = match src(rng) {
			Some(p) => p,
			None => Pat::Iri(self.ex(rng, "n0")),
		};
		// name of the value variable.
		let name = |rng: &mut Rng| -> String {
			if rng.pct(80) {
				"value".to_string()
			} else {
				rng.pick(&["x", "y", "self", "a"]).to_string()
			}
		};
		let explicit = |rng: &mut Rng, l: LRef, input: &str, graph: GraphA| -> Fmt {
			let default = if variant { "self" } else { "value" };
			if input == default {
				match graph {
					GraphA::Keep if rng.pct(70) => return Fmt::Layout(l),
					g if rng.pct(50) => return Fmt::Format(l, None, g),
					g => return Fmt::Format(l, Some(vec![Pat::var(input)]), g),
				}
			}
			Fmt::Format(l, Some(vec![Pat::var(input)]), graph)
		};
		let intro = |rng: &mut Rng, names: &[String]| -> Option<Vec<String>> {
			if !variant && names.len() == 1 && names[0] == "value" && rng.pct(75) {
				None
			} else if variant && names.is_empty() && rng.pct(75) {
				None
			} else {
				Some(names.to_vec())
			}
		};
		// shadowing makes `from` designate the introduced variable.
		let fresh = |rng: &mut Rng, from: &Pat| -> String {
			loop {
				let x = name(rng);
				if Pat::Var(x.clone()) != *from {
					return x;
				}
			}
		};
		match style {
			0 => {
				// (from, p, value)
				let x = name(rng);
				let property = !variant
					&& rng.pct(55)
					&& (from == Pat::Var(vars.0.first().cloned().unwrap_or_default()) || !self.strict)
					&& inputs > 0;
				let x = if property { x } else { fresh(rng, &from) };
				let p = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				Comp {
					intro: intro(rng, &[x.clone()]),
					dataset: if property {
						vec![]
					} else {
						vec![QuadP(from, p.clone(), Pat::Var(x.clone()), None)]
					},
					property: property.then_some(p),
					fmt: explicit(rng, l, &x, GraphA::Keep),
					required,
				}
			}
			1 => {
				// same resource.
				let l = self.lref(rng, 1, depth);
				let fmt = match &from {
					Pat::Var(x) => explicit(rng, l, x, GraphA::Keep),
					other => Fmt::Format(l, Some(vec![other.clone()]), GraphA::Keep),
				};
				Comp {
					intro: if variant { intro(rng, &[]) } else { Some(vec![]) },
					dataset: if !self.strict && rng.pct(25) {
						let t = self.rdf_type(rng);
						let c = self.class(rng);
						vec![QuadP(from, t, c, None)]
					} else {
						vec![]
					},
					property: None,
					fmt,
					required,
				}
			}
			2 => {
				// chain.
				let x = fresh(rng, &from);
				let p = self.prop(rng);
				let q = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				let m = "m".to_string();
				let mut names = vec![m.clone(), x.clone()];
				let mut property = None;
				let mut dataset = vec![QuadP(Pat::Var(m.clone()), q, Pat::Var(x.clone()), None)];
				if !variant && inputs > 0 && from == Pat::Var(vars.0[0].clone()) && rng.pct(30) {
					property = Some(p);
				} else {
					dataset.push(QuadP(from, p, Pat::Var(m), None));
					if rng.pct(30) {
						names.reverse();
					}
				}
				rng.shuffle(&mut dataset);
				Comp {
					intro: Some(names),
					dataset,
					property,
					fmt: explicit(rng, l, &x, GraphA::Keep),
					required,
				}
			}
			3 => {
				// several inputs.
				let p = self.prop(rng);
				let q = self.prop(rng);
				let l = self.lref(rng, 2, depth);
				let (x, y) = ("v1".to_string(), "v2".to_string());
				let mut args = vec![Pat::Var(x.clone()), Pat::Var(y.clone())];
				if rng.pct(30) {
					args.reverse();
				}
				if rng.pct(15) {
					args[1] = from.clone();
				}
				Comp {
					intro: Some(vec![x.clone(), y.clone()]),
					dataset: vec![
						QuadP(from.clone(), p, Pat::Var(x), None),
						QuadP(from, q, Pat::Var(y), None),
					],
					property: None,
					fmt: Fmt::Format(l, Some(args), GraphA::Keep),
					required,
				}
			}
			4 => {
				// graphs.
				let x = fresh(rng, &from);
				let p = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				let g = match rng.below(if self.strict { 3 } else { 5 }) {
					0 => GraphA::Default,
					1 => GraphA::Keep,
					2 => GraphA::Pat(Pat::Iri(self.ex(rng, &format!("g{}", rng.clone().below(2))))),
					3 => GraphA::Pat(Pat::Var(x.clone())),
					_ => GraphA::Pat(self.graph(rng, vars)),
				};
				let g = match g {
					// the variable could be shadowed.
					GraphA::Pat(Pat::Var(v)) if self.strict && v != x => GraphA::Keep,
					g => g,
				};
				let qg = match rng.below(4) {
					0 => Some(Pat::Iri(self.ex(rng, &format!("g{}", rng.clone().below(2))))),
					1 if !self.strict => Some(self.graph(rng, &vars.with(&[x.clone()]))),
					_ => None,
				};
				Comp {
					intro: intro(rng, &[x.clone()]),
					dataset: vec![QuadP(from, p, Pat::Var(x.clone()), qg)],
					property: None,
					fmt: explicit(rng, l, &x, g),
					required,
				}
			}
			5 => {
				// inverse.
				let x = fresh(rng, &from);
				let p = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				Comp {
					intro: intro(rng, &[x.clone()]),
					dataset: vec![QuadP(Pat::Var(x.clone()), p, from, None)],
					property: None,
					fmt: explicit(rng, l, &x, GraphA::Keep),
					required,
				}
			}
			6 => {
				// shared intermediate with constant quads.
				let x = fresh(rng, &from);
				let p = self.prop(rng);
				let q = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				let c = Pat::Lit(
					"k".into(),
					match rng.below(3) {
						0 if !self.strict => LitTy::Lang("en".into()),
						_ => LitTy::Type(self.iri_ref(rng, &format!("{XSD}string"))),
					},
				);
				Comp {
					intro: intro(rng, &[x.clone()]),
					dataset: vec![
						QuadP(from.clone(), p, Pat::Var(x.clone()), None),
						QuadP(from, q, c, None),
					],
					property: None,
					fmt: explicit(rng, l, &x, GraphA::Keep),
					required,
				}
			}
			7 => {
				// constant input.
				let l = self.lref(rng, 1, depth);
				let arg = match rng.below(3) {
					0 => Pat::Iri(self.ex(rng, &format!("n{}", rng.clone().below(3)))),
					1 => Pat::Lit(
						rng.pick(&["1", "true", "a", "00FF"]).to_string(),
						LitTy::Type(self.iri_ref(
							rng,
							&format!("{XSD}{}", rng.clone().pick(&["integer", "boolean", "string"])),
						)),
					),
					_ => from.clone(),
				};
				Comp {
					intro: Some(vec![]),
					dataset: vec![],
					property: None,
					fmt: Fmt::Format(l, Some(vec![arg]), GraphA::Keep),
					required,
				}
			}
			8 => {
				// free.
				let names: Vec<String> = (0..rng.below(3)).map(|i| format!("f{i}")).collect();
				let inner = vars.with(&names);
				let n = *rng.pick(&[0, 1, 1, 1, 2]);
				let l = self.lref(rng, n, depth);
				let dataset = (0..rng.below(3)).map(|_| self.any_quad(rng, &inner)).collect();
				let mut args: Vec<Pat> = (0..n).map(|_| self.any_pat(rng, &inner)).collect();
				if rng.pct(5) {
					args.push(Pat::Iri(self.ex(rng, "n0")));
				}
				let g = if rng.pct(10) {
					GraphA::Pat(self.graph(rng, &inner))
				} else {
					GraphA::Keep
				};
				Comp {
					intro: Some(names),
					dataset,
					property: None,
					fmt: Fmt::Format(l, Some(args), g),
					required,
				}
			}
			_ => {
				// two properties to the same value, possibly a triangle.
				let x = fresh(rng, &from);
				let p = self.prop(rng);
				let q = self.prop(rng);
				let l = self.lref(rng, 1, depth);
				let (a, b) = if rng.pct(50) {
					(Pat::Var(x.clone()), from.clone())
				} else {
					(from.clone(), Pat::Var(x.clone()))
				};
				Comp {
					intro: intro(rng, &[x.clone()]),
					dataset: vec![QuadP(from, p, Pat::Var(x.clone()), None), QuadP(a, q, b, None)],
					property: None,
					fmt: explicit(rng, l, &x, GraphA::Keep),
					required,
				}
			}
		}
	}

	pub fn layout(&mut self, rng: &mut Rng, n: usize, depth: usize, id: Option<String>) -> Lay {
		self.fuel = self.fuel.saturating_sub(1);
		if depth == 0 || self.fuel == 0 || (n == 0 && self.strict) {
			if !self.strict && id.is_none() && rng.pct(5) {
				return Lay::Bool(rng.pct(75));
			}
			return self.literal(rng, n, id);
		}
		if !self.strict && id.is_none() && rng.pct(3) {
			return Lay::Bool(rng.pct(60));
		}
		// inner identifiers, once in a while.
		let id = match id {
			None if rng.pct(6) => {
				self.unique += 1;
				let n = self.unique;
				Some(self.ex(rng, &format!("I{n}")))
			}
			other => other,
		};
		let d = depth - 1;
		match rng.below(12) {
			0..=3 => {
				let (h, vars) = self.header(rng, n, id);
				let mut names = vec!["id", "name", "a", "b", "c", "é", "x y"];
				rng.shuffle(&mut names);
				let k = *rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
				let mut fields = Vec::new();
				if n > 0 && (self.strict || rng.pct(30)) && rng.pct(60) {
					fields.push((
						"@id".to_string(),
						Comp {
							intro: Some(vec![]),
							fmt: Fmt::Format(
								LRef::Inline(Box::new(Lay::Id(Header::default(), None, None))),
								Some(vec![Pat::Var(vars.0[0].clone())]),
								GraphA::Keep,
							),
							dataset: vec![],
							property: None,
							required: self.strict || rng.pct(30),
						},
					));
				}
				for i in 0..k {
					let mut c = self.comp(rng, &vars, n, d, false);
					c.required = rng.pct(30);
					fields.push((names[i].to_string(), c));
				}
				Lay::Record(h, fields)
			}
			4 | 5 => {
				let (h, vars) = self.header(rng, n, id);
				let mut names = vec!["v0", "v1", "v2", "b", "Zed"];
				rng.shuffle(&mut names);
				let k = *rng.pick(&[0, 1, 2, 2, 3, 3]);
				let k = if self.strict { k.max(1) } else { k };
				let variants = (0..k)
					.map(|i| (names[i].to_string(), self.comp(rng, &vars, n, d, true)))
					.collect();
				Lay::Sum(h, variants)
			}
			6 | 7 => {
				let (h, vars) = self.header(rng, n, id);
				let mut c = self.comp(rng, &vars, n, d, false);
				c.required = false;
				Lay::Set(h, Box::new(c))
			}
			8 => {
				let (h, vars) = self.header(rng, n, id);
				let k = *rng.pick(&[0, 1, 2, 2, 3]);
				let items = (0..k).map(|_| self.comp(rng, &vars, n, d, false)).collect();
				Lay::Tuple(h, items)
			}
			9 | 10 => {
				let (h, vars) = self.header(rng, n, id);
				let node = match rng.below(4) {
					0 | 1 => Node::Layout(self.lref(rng, 1, d)),
					_ => {
						let head = rng.pct(30).then(|| rng.pick(&["h", "self2"]).to_string());
						let rest = rng.pct(30).then(|| rng.pick(&["r", "next"]).to_string());
						let hn = head.clone().unwrap_or("head".into());
						let rn = rest.clone().unwrap_or("rest".into());
						match rng.below(4) {
							0 => Node::Node {
								head,
								rest,
								intro: None,
								fmt: Fmt::Layout(self.lref(rng, 1, d)),
								dataset: None,
							},
							1 => {
								let (p, q) = (self.prop(rng), self.prop(rng));
								Node::Node {
									head,
									rest,
									intro: Some(vec!["x".into()]),
									fmt: Fmt::Format(
										self.lref(rng, 1, d),
										Some(vec![Pat::var("x")]),
										GraphA::Keep,
									),
									dataset: Some(vec![
										QuadP(Pat::Var(hn.clone()), p, Pat::var("x"), None),
										QuadP(Pat::Var(hn), q, Pat::Var(rn), None),
									]),
								}
							}
							2 => {
								// the node itself is the item.
								let q = self.prop(rng);
								Node::Node {
									head,
									rest,
									intro: Some(vec![]),
									fmt: Fmt::Format(
										self.lref(rng, 1, d),
										Some(vec![Pat::Var(hn.clone())]),
										GraphA::Keep,
									),
									dataset: Some(vec![QuadP(Pat::Var(hn), q, Pat::Var(rn), None)]),
								}
							}
							_ => Node::Node {
								head,
								rest,
								intro: Some(vec!["x".into(), "value".into()]),
								fmt: Fmt::Format(
									self.lref(rng, 1, d),
									Some(vec![Pat::var("value")]),
									if rng.pct(30) { GraphA::Default } else { GraphA::Keep },
								),
								dataset: Some({
									let (p, q) = (self.prop(rng), self.prop(rng));
									vec![
										QuadP(
											Pat::Var(hn.clone()),
											p,
											Pat::var("x"),
											None,
										),
										QuadP(Pat::var("x"), q, Pat::var("value"), None),
										QuadP(
											Pat::Var(hn),
											Pat::Iri(self.iri_ref(rng, &format!("{RDF}rest"))),
											Pat::Var(rn),
											None,
										),
									]
								}),
							},
						}
					}
				};
				let lname = "self".to_string();
				let has_nil = self.iri_ref(rng, &format!("{RDF}nil"));
				// an absolute IRI may be unreachable when a prefix is named
				// after its scheme.
				let head = if vars.has(&lname) && rng.pct(80) {
					None
				} else {
					Some(match vars.pick(rng) {
						Some(v) => Pat::Var(v),
						None => Pat::Iri(self.ex(rng, "n0")),
					})
				};
				let tail = match rng.below(8) {
					0 => Some(Pat::Iri(has_nil)),
					1 => Some(Pat::Iri(self.ex(rng, "end"))),
					2 if !self.strict => vars.pick(rng).map(Pat::Var),
					_ => None,
				};
				Lay::List(h, Box::new(node), head, tail)
			}
			_ => self.literal(rng, n, id),
		}
	}

	/// Generates a list of layouts: the named ones, and a root (last).
	pub fn library(rng: &mut Rng, strict: bool) -> (Vec<Lay>, Gen) {
		let g = Gen::new(rng, strict);
		Gen::library_of(rng, g)
	}

	pub fn library_of(rng: &mut Rng, mut g: Gen) -> (Vec<Lay>, Gen) {
		let strict = g.strict;
		let mut out = Vec::new();
		for (id, n) in g.named.clone() {
			g.fuel = if small() { 2 } else { 6 };
			let depth = rng.range(1, 2);
			let l = g.layout(rng, n, depth, Some(id));
			g.base = None;
			g.prefixes.clear();
			out.push(l);
		}
		g.fuel = if small() { 4 } else { 12 };
		let n = if strict { 1 } else { *rng.pick(&[1, 1, 1, 1, 1, 1, 2, 0]) };
		let depth = rng.range(1, 3);
		let id = rng.pct(40).then(|| format!("{EX}Root"));
		let l = g.layout(rng, n, depth, id);
		g.base = None;
		g.prefixes.clear();
		out.push(l);
		(out, g)
	}
}

fn vars_pick(names: &[String], rng: &mut Rng) -> Option<String> {
	if names.is_empty() {
		None
	} else {
		Some(rng.pick(names).clone())
	}
}

pub fn text(s: impl Into<String>) -> Value {
	Value::Literal(Literal::TextString(s.into()))
}

pub fn number(rng: &mut Rng, datatype: &str) -> BigRational {
	let i = |n: i128| BigRational::from_integer(BigInt::from(n));
	let name = datatype.strip_prefix(XSD).unwrap_or("integer");
	let small = rng.below(7) as i128;
	match name {
		"decimal" => match rng.below(6) {
			0 => BigRational::new(BigInt::from(-1), BigInt::from(2)),
			1 => BigRational::new(BigInt::from(12345), BigInt::from(1000)),
			2 => BigRational::new(BigInt::from(1), BigInt::from(1_000_000)),
			3 => i(-small),
			4 => BigRational::new(BigInt::from(rng.below(2000) as i64 - 1000), BigInt::from(80)),
			_ => i(small),
		},
		"nonPositiveInteger" => i(-small),
		"negativeInteger" => i(-small - 1),
		"positiveInteger" => i(small + 1),
		"byte" => i(*rng.pick(&[small, -128, 127, -1])),
		"short" => i(*rng.pick(&[small, -32768, 32767])),
		"int" => i(*rng.pick(&[small, i32::MIN as i128, i32::MAX as i128])),
		"long" => i(*rng.pick(&[small, i64::MIN as i128, i64::MAX as i128])),
		"unsignedByte" => i(*rng.pick(&[small, 255])),
		"unsignedShort" => i(*rng.pick(&[small, 65535])),
		"unsignedInt" => i(*rng.pick(&[small, u32::MAX as i128])),
		"unsignedLong" => i(*rng.pick(&[small, u64::MAX as i128])),
		"nonNegativeInteger" => i(small),
		_ => i(*rng.pick(&[small, -small, 1 << 70, -(1 << 70)])),
	}
}

pub struct VGen<'a> {
	pub reg: &'a RReg,
	/// Percentage of perturbed (incompatible) values.
	pub noise: u32,
	pub unique: usize,
	pub strict: bool,
	/// Remaining number of nodes to generate.
	pub fuel: usize,
}

/// A text with unusual characters.
pub fn unusual(rng: &mut Rng) -> String {
	match rng.below(12) {
		0 => "x".repeat(rng.below(600)),
		1 => format!(" {}\t", rng.below(100)),
		_ => (0..rng.range(1, 6))
			.map(|_| {
				*rng.pick(&[
					'\0', '\x01', '\x08', '\t', '\n', '\x0b', '\x0c', '\r', '\x1b', ' ', '"', '\'', '\\', '/', '<', '>', '{', '}', '@', '^', '.', '_', ':',
					'\x7f', '\u{85}', '\u{a0}', 'é', '\u{301}', 'ß', '\u{200f}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '😀',
					'\u{10ffff}', '0', 'u', 'n', 'A',
				])
			})
			.collect(),
	}
}

impl VGen<'_> {
	pub fn any(&mut self, rng: &mut Rng, depth: usize) -> Value {
		match rng.below(if depth == 0 { 6 } else { 8 }) {
			0 => Value::Literal(Literal::Unit),
			1 => Value::Literal(Literal::Boolean(rng.pct(50))),
			2 => num(number(rng, &format!("{XSD}{}", rng.clone().pick(DECIMALS)))),
			3 => text(*rng.pick(&["", "a", "abc", "const", "https://ex.org/n0"])),
			4 => Value::Literal(Literal::ByteString(vec![0, 255])),
			5 => num(BigRational::new(BigInt::from(1), BigInt::from(3))),
			6 => Value::List((0..rng.below(3)).map(|_| self.any(rng, depth - 1)).collect()),
			_ => Value::Map(
				(0..rng.below(3))
					.map(|_| {
						(
							if rng.pct(90) {
								text(*rng.pick(&["id", "name", "a", "b", "c", "@id", "z"]))
							} else {
								self.any(rng, 0)
							},
							self.any(rng, depth - 1),
						)
					})
					.collect(),
			),
		}
	}

	pub fn value(&mut self, rng: &mut Rng, key: &Key, depth: usize) -> Value {
		if self.fuel == 0 || rng.pct(self.noise) {
			return self.any(rng, 1);
		}
		self.fuel -= 1;
		let reg = self.reg;
		let Some(lay) = reg.lays.get(key) else {
			return self.any(rng, 1);
		};
		match lay {
			RLay::Never => self.any(rng, 1),
			RLay::Always => self.any(rng, 1),
			RLay::Unit(_, c) => c.clone(),
			RLay::Lit {
				kind,
				datatype,
				pattern,
				..
			} => match kind {
				Kind::Boolean => Value::Literal(Literal::Boolean(rng.pct(50))),
				Kind::Number => {
					if rng.pct(3) && !self.strict {
						return num(number(rng, &format!("{XSD}{}", rng.clone().pick(DECIMALS))));
					}
					num(number(rng, datatype))
				}
				Kind::Bytes => Value::Literal(Literal::ByteString(
					(0..if rng.pct(5) { rng.below(300) } else { rng.below(5) }).map(|_| rng.below(256) as u8).collect(),
				)),
				Kind::Str => {
					if let Some((_, rx)) = pattern {
						if rng.pct(92) {
							for _ in 0..4 {
								let mut s = String::new();
								if rx.sample(rng, &mut s).is_some() && s.len() < 60 {
									return text(s);
								}
							}
						}
					}
					if rng.pct(8) {
						return text(unusual(rng));
					}
					text(*rng.pick(&["", "a", "b", "abc", "é\n\"", "true", "1"]))
				}
				Kind::Id => {
					if self.strict {
						self.unique += 1;
						return text(format!("{EX}i{}", self.unique));
					}
					if rng.pct(3) {
						return text(*rng.pick(&["not an iri", "", "rel", "_:b"]));
					}
					if rng.pct(5) {
						return text(format!("{RDF}nil"));
					}
					if rng.pct(4) {
						return text(*rng.pick(&[
							"urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66",
							"https://ex.org/é",
							"https://ex.org/?q=1&r=%20#f",
							"HTTPS://EX.org:443/a/../b/.",
							"mailto:a@ex.org",
							"data:,",
							"https://[::1]:80/",
							"a:",
							"https://ex.org/\u{e000}",
							"tag:ex.org,2020:a",
							"https://user@ex.org",
							"https://ex.org/n 0",
							"https://ex.org/<n>",
							"https://ex.org/%zz",
						]));
					}
					text(format!("{EX}n{}", rng.below(5)))
				}
			},
			RLay::Record(_, fields) => {
				let mut m = BTreeMap::new();
				for (k, f) in fields {
					let p = if f.required {
						if self.strict {
							100
						} else {
							97
						}
					} else if depth == 0 {
						10
					} else {
						70
					};
					if rng.pct(p) {
						m.insert(k.clone(), self.value(rng, &f.fmt.layout, depth.saturating_sub(1)));
					}
				}
				if !self.strict && rng.pct(2) {
					m.insert(text("zzz"), self.any(rng, 0));
				}
				Value::Map(m)
			}
			RLay::Sum(_, v) => {
				if v.is_empty() || depth == 0 && rng.pct(50) {
					return self.any(rng, 0);
				}
				let c = rng.pick(v).1.fmt.layout.clone();
				self.value(rng, &c, depth.saturating_sub(1))
			}
			RLay::Set(_, c) | RLay::List { node: c, .. } => {
				let n = if depth == 0 { 0 } else { *rng.pick(&[0, 1, 1, 2, 2, 3]) };
				let mut v: Vec<_> = (0..n)
					.map(|_| self.value(rng, &c.fmt.layout, depth - 1))
					.collect();
				if self.strict && matches!(lay, RLay::Set(..)) {
					v = v.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
				}
				Value::List(v)
			}
			RLay::Tuple(_, items) => {
				let mut v: Vec<_> = if depth == 0 && !self.strict {
					vec![]
				} else {
					items
						.iter()
						.map(|c| self.value(rng, &c.fmt.layout, depth.saturating_sub(1)))
						.collect()
				};
				if !self.strict && rng.pct(2) {
					v.push(self.any(rng, 0));
				}
				Value::List(v)
			}
		}
	}
}

/// All the properties, classes and resources mentioned by the layouts.
pub fn mentioned(reg: &RReg) -> Vec<Term> {
	let mut out = BTreeSet::new();
	for l in reg.lays.values() {
		let mut ds: Vec<&BTreeSet<RQuad>> = Vec::new();
		if let Some(h) = l.head() {
			ds.push(&h.dataset);
		}
		for c in l.comps() {
			ds.push(&c.dataset);
		}
		for d in ds {
			for q in d {
				for p in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
					if let RPat::Term(t) = p {
						out.insert(t.clone());
					}
				}
			}
		}
	}
	out.into_iter().collect()
}

pub fn random_literal(rng: &mut Rng) -> Term {
	match rng.below(12) {
		0 => lit("true", &format!("{XSD}boolean")),
		1 => lit(*rng.pick(&["1", "0", "TRUE", ""]), &format!("{XSD}boolean")),
		2 => lit(*rng.pick(&["1", "-1", "+5", "007", "abc", "300"]), &format!("{XSD}integer")),
		3 => lit(*rng.pick(&["1.50", "-.5", "5.", ".", "1e3", "-0.25"]), &format!("{XSD}decimal")),
		4 => lit(*rng.pick(&["300", "-129", "12"]), &format!("{XSD}{}", rng.clone().pick(DECIMALS))),
		5 => lit(*rng.pick(&["00ff", "0g", "abc", ""]), &format!("{XSD}hexBinary")),
		6 => lit(*rng.pick(&["AAE=", "", "/w==", "AQID"]), &format!("{XSD}base64Binary")),
		7 => lang("a", "en"),
		8 => lit("a", &format!("{EX}dt")),
		9 => lit("1.5", &format!("{XSD}double")),
		_ => lit(*rng.pick(&["a", "b", "abc", ""]), &format!("{XSD}string")),
	}
}

/// Random mutations of the dataset.
pub fn mutate(rng: &mut Rng, data: &mut Vec<Q>, pool: &[Term], n: usize) {
	let nodes: Vec<Term> = data
		.iter()
		.flat_map(|q| [q.0.clone(), q.2.clone()])
		.chain((0..3).map(|i| iri(&format!("{EX}n{i}"))))
		.collect();
	for _ in 0..n {
		match rng.below(10) {
			0 | 1 if !data.is_empty() => {
				let i = rng.below(data.len());
				data.remove(i);
			}
			2 if !data.is_empty() => {
				// same predicate, other object.
				let mut q = rng.pick(data).clone();
				q.2 = if rng.pct(50) { random_literal(rng) } else { rng.pick(&nodes).clone() };
				data.push(q);
			}
			3 if !data.is_empty() => {
				let i = rng.below(data.len());
				data[i].2 = if rng.pct(60) { random_literal(rng) } else { rng.pick(&nodes).clone() };
			}
			4 if !data.is_empty() => {
				let i = rng.below(data.len());
				data[i].3 = match rng.below(3) {
					0 => None,
					k => Some(iri(&format!("{EX}g{}", k - 1))),
				};
			}
			5 if !data.is_empty() => {
				let mut q = rng.pick(data).clone();
				q.3 = match rng.below(3) {
					0 => None,
					k => Some(iri(&format!("{EX}g{}", k - 1))),
				};
				data.push(q);
			}
			6 if !data.is_empty() => {
				let i = rng.below(data.len());
				data[i].0 = rng.pick(&nodes).clone();
			}
			7 if !data.is_empty() => {
				// merge two nodes.
				let a = rng.pick(&nodes).clone();
				let b = rng.pick(&nodes).clone();
				for q in data.iter_mut() {
					for t in [&mut q.0, &mut q.2] {
						if *t == a {
							*t = b.clone()
						}
					}
				}
			}
			_ => {
				let p = if pool.is_empty() || rng.pct(30) {
					iri(&format!("{EX}p{}", rng.below(5)))
				} else {
					rng.pick(pool).clone()
				};
				data.push((
					rng.pick(&nodes).clone(),
					p,
					if rng.pct(40) { random_literal(rng) } else { rng.pick(&nodes).clone() },
					if rng.pct(15) { Some(iri(&format!("{EX}g{}", rng.below(2)))) } else { None },
				));
			}
		}
	}
	data.sort();
	data.dedup();
}
