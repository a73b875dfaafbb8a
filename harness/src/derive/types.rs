//! Written by tools/gen_derive.py.
#![allow(dead_code, unused_imports, clippy::all)]
use crate::ast::*;
use crate::derive::*;
use crate::gen::*;
use crate::ops;
use crate::props::interp::*;
use crate::refde::tagged;
use crate::rng::Rng;
use std::collections::BTreeMap;
use treeldr::{DeserializeLd, SerializeLd};
use treeldr_layouts::{Literal, Value};


#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:a", "ex:t1p1", "_:v"), ("_:a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), intro("v"))]
#[tldr(input("a", "b"), string, resource("_:a"), datatype("xsd:string"))]
pub struct T1(pub String);

impl Tv for T1 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T1(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(string, resource("_:self"), datatype("xsd:string"), intro("v"), dataset(("_:self", "ex:t2p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T2(pub String);

impl Tv for T2 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T2(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:byte"))]
pub struct T3(pub i8);

impl Tv for T3 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T3(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:byte"))]
pub struct T4(pub i8);

impl Tv for T4 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T4(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(boolean, intro("v", "w"), dataset(("_:self", "ex:t5p1", "_:v"), ("_:v", "ex:t5p2", "_:w")))]
#[tldr(resource("_:w"))]
pub struct T5(pub bool);

impl Tv for T5 {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::Boolean(self.0))
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T5(rng.pct(50))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(string)]
pub struct T6(pub String);

impl Tv for T6 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T6(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), datatype("xsd:string"), resource("_:a"), dataset(("_:a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), string)]
pub struct T7(pub String);

impl Tv for T7 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T7(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(unit)]
pub struct T8;

impl Tv for T8 {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::Unit)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T8
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(resource("_:b"), string, input("self", "b"), datatype("xsd:token"))]
pub struct T9(pub String);

impl Tv for T9 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T9(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"), intro("v", "w"), resource("_:w"), datatype("ex:D"), dataset(("_:a", "ex:t10p1", "_:v"), ("_:w", "ex:t10p3", "_:a")), string)]
pub struct T10(pub String);

impl Tv for T10 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T10(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:unsignedInt"))]
pub struct T11(pub u32);

impl Tv for T11 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T11(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(id, intro("v", "w"), dataset(("_:self", "ex:t12p1", "_:v"), ("_:self", "ex:t12p2", "_:w"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), resource("_:w"))]
pub struct T12(pub rdf_types::Id);

impl treeldr::AsId for T12 {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
		self.0.as_lexical_id_ref()
	}
}

impl Tv for T12 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T12(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p0", "_:w")))]
#[tldr(intro("w"))]
pub struct T13;

impl Tv for T13 {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::Unit)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T13
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "_:self", "_:self"), ("_:v", "ex:t14p3", "_:w")), datatype("xsd:boolean"), intro("v", "w"))]
#[tldr(resource("_:self"), boolean)]
pub struct T14(pub bool);

impl Tv for T14 {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::Boolean(self.0))
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T14(rng.pct(50))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p0", "_:w")), intro("w"), list, tail("_:w"))]
pub struct T15(#[tldr(graph(None))] pub Vec<String>);

impl Tv for T15 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T15((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
pub struct T16 {
	#[tldr(dataset(("_:self", "ex:t16p1", "_:value", "ex:g0")), input("_:value"), graph(Some("ex:g0")))]
	pub c: T15,
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:p2", "_:x0"), ("_:x0", "ex:t16p3", "_:y")), input("_:y"), graph(None))]
	pub b: Option<String>,
}

impl Tv for T16 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("c"), self.c.to_value());
		if let Some(v) = &self.b { m.insert(text("b"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T16 { c: Tv::gen(rng, depth + 1), b: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), head("_:a"))]
#[tldr(list)]
pub struct T17(#[tldr(head("head"), rest("next"), dataset(("_:head", "_:head", "_:value"), ("_:head", "ex:next", "_:next")), input("_:value"))] pub Vec<u8>);

impl Tv for T17 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T17((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T18(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p0", "_:x0")), input("_:x0"))]
	pub T6,
);

impl Tv for T18 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T18(Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record)]
pub struct T19 {
	#[tldr("ex:p1")]
	pub d: T18,
}

impl Tv for T19 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("d"), self.d.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T19 { d: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:b", "ex:t20p1", "_:w")), input("a", "b"))]
pub struct T20 {
	#[tldr(dataset(("_:b", "ex:p1", "_:value")))]
	pub a: T12,
	#[tldr(intro("x0", "y"), dataset(("_:a", "ex:t20p3", "_:x0", "ex:g0"), ("_:b", "ex:t20p4", "_:y")), input("_:y"), graph(_))]
	pub d: i32,
	#[tldr(intro("x0"), dataset(("_:b", "ex:p0", "_:x0")), input("_:x0"), graph(_))]
	pub b: Option<String>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t20p6", "_:x0")), input("_:x0"))]
	pub c: Option<i32>,
}

impl Tv for T20 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("a"), self.a.to_value());
		m.insert(text("d"), self.d.to_value());
		if let Some(v) = &self.b { m.insert(text("b"), v.to_value()); }
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T20 { a: Tv::gen(rng, depth + 1), d: Tv::gen(rng, depth + 1), b: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:w", "_:self", "_:self")), tuple)]
#[tldr(intro("w"))]
pub struct T21(
	#[tldr(intro("value", "gv"), dataset(("_:self", "ex:t21p3", "_:value", "_:gv")), graph(Some("_:gv")))]
	pub T7,
	#[tldr("ex:p3", graph(Some("ex:g1")))]
	pub String,
);

impl Tv for T21 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T21(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t22p1", "_:v"), ("_:self", "ex:t22p2", "_:w"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("v", "w"))]
pub struct T22(
	#[tldr("ex:t22p3")]
	pub i32,
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:p0", "_:x0"), ("_:self", "ex:t22p5", "_:y")), input("_:x0"), graph(None))]
	pub i32,
);

impl Tv for T22 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T22(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub enum T23 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:p3", "_:x0")), input("_:x0"), graph(Some("ex:g1")))]
	Bar(u64),
	#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:t23p2", "_:x0", "_:gv")), input("_:x0"))]
	Baz(String),
}

impl Tv for T23 {
	fn to_value(&self) -> Value {
		match self {
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(2) { 0 => Self::Bar(Tv::gen(rng, depth + 1)), _ => Self::Baz(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("b", "self"))]
pub enum T24 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:p2", "_:x0"), ("_:x0", "ex:t24p2", "_:x1")), input("_:x0", "_:x1"))]
	Qux(T10),
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"))]
	Foo(u8),
}

impl Tv for T24 {
	fn to_value(&self) -> Value {
		match self {
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(2) { 0 => Self::Qux(Tv::gen(rng, depth + 1)), _ => Self::Foo(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(tail("ex:end"), list)]
pub struct T25( pub Vec<i8>);

impl Tv for T25 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T25((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number)]
#[tldr(datatype("xsd:unsignedByte"), dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")))]
pub struct T26(pub u8);

impl Tv for T26 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T26(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T27 {
	#[tldr(intro("value", "gv"), dataset(("_:self", "ex:t27p1", "_:value", "_:gv")))]
	pub a: T14,
	#[tldr(dataset(("_:self", "ex:t27p2", "_:value", "ex:g0")), graph(Some("ex:g1")))]
	pub c: Option<i32>,
	#[tldr("ex:t27p3")]
	pub b: Option<u8>,
	#[tldr(intro("x0", "y", "gv"), dataset(("_:self", "ex:p2", "_:x0", "_:gv"), ("_:self", "ex:p3", "_:y")), input("_:x0"), graph(Some("_:gv")))]
	pub d: T26,
}

impl Tv for T27 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("a"), self.a.to_value());
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		if let Some(v) = &self.b { m.insert(text("b"), v.to_value()); }
		m.insert(text("d"), self.d.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T27 { a: Tv::gen(rng, depth + 1), c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, b: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, d: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:p4", "_:self"), ("_:v", "ex:t28p3", "_:w")), intro("v", "w"))]
pub struct T28 {
	#[tldr("ex:t28p4")]
	pub d: u64,
}

impl Tv for T28 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("d"), self.d.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T28 { d: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T29 {
	#[tldr(dataset(("_:self", "ex:t29p1", "_:value")))]
	pub b: String,
}

impl Tv for T29 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("b"), self.b.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T29 { b: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t30p1", "_:w")), intro("w"))]
pub enum T30 {
	#[tldr(intro("x0"), dataset(("_:w", "ex:t30p2", "_:x0")), input("_:x0"))]
	Foo(i32),
	#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:t30p3", "_:x0", "_:gv")), input("_:x0"), graph(Some("_:gv")))]
	Bar(String),
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:t30p4", "_:x0"), ("_:self", "ex:t30p5", "_:y")), input("_:x0"))]
	Baz(i64),
}

impl Tv for T30 {
	fn to_value(&self) -> Value {
		match self {
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(3) { 0 => Self::Foo(Tv::gen(rng, depth + 1)), 1 => Self::Bar(Tv::gen(rng, depth + 1)), _ => Self::Baz(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), list, head("_:a"))]
pub struct T31( pub Vec<u64>);

impl Tv for T31 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T31((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"), dataset(("_:v", "ex:t32p2", "_:b"), ("_:a", "ex:t32p3", "_:a")), intro("v"))]
pub struct T32 {

}

impl Tv for T32 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T32 {  }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(tail("ex:end"), list, head("_:self"))]
pub struct T33( pub Vec<T25>);

impl Tv for T33 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T33((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p4", "_:v")), tuple, intro("v"))]
pub struct T34(
	#[tldr(dataset(("_:self", "ex:p1", "_:value")))]
	pub String,
	#[tldr(dataset(("_:v", "ex:p0", "_:value")), input("_:value"))]
	pub T30,
);

impl Tv for T34 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T34(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T35 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:t35p1", "_:x0")), input("_:x0"))]
	pub c: Option<u64>,
}

impl Tv for T35 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T35 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T36(
	#[tldr("ex:t36p1")]
	pub T29,
	#[tldr(dataset(("_:self", "ex:t36p2", "_:value", "ex:g0")), input("_:value"))]
	pub u8,
);

impl Tv for T36 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T36(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, intro("w"), dataset(("_:self", "ex:t37p1", "_:w")))]
pub struct T37(#[tldr(graph(Some("ex:g0")))] pub Vec<i8>);

impl Tv for T37 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T37((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes, dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), datatype("xsd:hexBinary"))]
pub struct T38(pub Hex);

impl Tv for T38 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T38(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"))]
pub struct T39(
	#[tldr(dataset(("_:a", "ex:t39p1", "_:value")))]
	pub u8,
);

impl Tv for T39 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T39(Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"))]
#[tldr(dataset(("_:self", "ex:t40p1", "_:v"), ("_:v", "ex:t40p2", "_:w")))]
pub struct T40 {

}

impl Tv for T40 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T40 {  }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T41 {
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V3")))]
	Foo(T30),
	#[tldr(intro("x0"), dataset(("_:self", "_:self", "_:x0")), input("ex:n0"))]
	Baz(T31),
	#[tldr(intro("x0", "y", "gv"), dataset(("_:self", "ex:p4", "_:x0", "_:gv"), ("_:self", "ex:p2", "_:y")), input("_:y"))]
	Bar(i8),
}

impl Tv for T41 {
	fn to_value(&self) -> Value {
		match self {
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(3) { 0 => Self::Foo(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), _ => Self::Bar(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t42p1", "_:w"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("w"))]
pub struct T42 {
	#[tldr("ex:p4")]
	pub b: Option<T36>,
	#[tldr(intro("x0", "self"), dataset(("_:w", "ex:t42p3", "_:x0"), ("_:x0", "_:x0", "_:self")), input("_:x0"))]
	pub c: T34,
}

impl Tv for T42 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.b { m.insert(text("b"), v.to_value()); }
		m.insert(text("c"), self.c.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T42 { b: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, c: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T43 {
	#[tldr(intro("x0", "self"), dataset(("_:self", "ex:p1", "_:x0"), ("_:self", "ex:t43p2", "_:self")), input("_:self"))]
	Foo(T41),
	#[tldr(intro("x0"), dataset(("_:self", "ex:p1", "_:x0", "ex:g1")), input("_:x0"))]
	Bar(String),
}

impl Tv for T43 {
	fn to_value(&self) -> Value {
		match self {
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(2) { 0 => Self::Foo(Tv::gen(rng, depth + 1)), _ => Self::Bar(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:b", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), input("a", "b"))]
pub struct T44 {
	#[tldr(dataset(("_:a", "ex:t44p1", "_:value")))]
	pub b: i32,
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"))]
	pub a: Option<i32>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t44p3", "_:x0")), input("_:x0"))]
	pub c: T37,
}

impl Tv for T44 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("b"), self.b.to_value());
		if let Some(v) = &self.a { m.insert(text("a"), v.to_value()); }
		m.insert(text("c"), self.c.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T44 { b: Tv::gen(rng, depth + 1), a: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, c: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T45 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:t45p1", "_:x0"), ("_:x0", "ex:p1", "_:x0")), input("_:x0"), graph(None))]
	Bar(u8),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t45p3", "_:x0"), ("_:x0", "_:x0", "_:y")), input("_:x0"))]
	Qux(String),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t45p5", "_:x0"), ("_:self", "ex:t45p6", "_:y")), input("_:y"))]
	Foo(u64),
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t45p7", "_:x0"), ("_:self", "ex:t45p8", "_:x1")), input("_:x1", "_:x0"), graph(None))]
	Baz(T32),
}

impl Tv for T45 {
	fn to_value(&self) -> Value {
		match self {
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(4) { 0 => Self::Bar(Tv::gen(rng, depth + 1)), 1 => Self::Qux(Tv::gen(rng, depth + 1)), 2 => Self::Foo(Tv::gen(rng, depth + 1)), _ => Self::Baz(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:a"))]
#[tldr(dataset(("_:a", "ex:t46p1", "_:v", "ex:g1"), ("_:a", "ex:t46p2", "_:w")), intro("v", "w"), list, input("a"))]
pub struct T46(#[tldr(rest("rest"), intro("x0"), dataset(("_:head", "ex:p3", "_:x0"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")), input("_:x0"))] pub Vec<T33>);

impl Tv for T46 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T46((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:t47p2", "_:self")), list, intro("v"), tail("_:v"))]
pub struct T47(#[tldr(graph(Some("ex:g0")))] pub Vec<T37>);

impl Tv for T47 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T47((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "_:self", "_:self"), ("_:v", "ex:t48p3", "_:w")), tuple)]
#[tldr(intro("v", "w"))]
pub struct T48(
	#[tldr(dataset(("_:self", "ex:t48p4", "_:value")))]
	pub i64,
);

impl Tv for T48 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T48(Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t49p1", "_:v"), ("_:w", "_:v", "_:v", "ex:g1")), intro("v", "w"))]
pub struct T49 {

}

impl Tv for T49 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T49 {  }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), dataset(("_:a", "ex:t50p1", "_:a")))]
pub struct T50 {
	#[tldr(dataset(("_:a", "ex:p4", "_:value")), input("_:value"))]
	pub d: Option<T47>,
	#[tldr(dataset(("_:a", "ex:p0", "_:value")))]
	pub a: i8,
}

impl Tv for T50 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.d { m.insert(text("d"), v.to_value()); }
		m.insert(text("a"), self.a.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T50 { d: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, a: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, dataset(("_:self", "ex:p2", "_:v"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), intro("v"))]
pub struct T51(#[tldr(head("head"), rest("next"), intro("value", "gv"), dataset(("_:head", "ex:t51p2", "_:value", "_:gv"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:next")), graph(Some("_:gv")))] pub Vec<u64>);

impl Tv for T51 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T51((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("self", "b"), dataset(("_:self", "ex:t52p1", "_:w"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:self", "ex:t52p2", "_:self")), intro("w"))]
pub struct T52 {
	#[tldr("ex:t52p3")]
	pub c: Option<u64>,
	#[tldr("ex:t52p4")]
	pub a: T46,
}

impl Tv for T52 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		m.insert(text("a"), self.a.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T52 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, a: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T53 {
	#[tldr("ex:t53p1")]
	pub c: Option<T43>,
	#[tldr(intro("value", "gv"), dataset(("_:self", "_:self", "_:value", "_:gv")))]
	pub d: Option<String>,
	#[tldr(intro("x0", "x1"), dataset(("_:self", "_:self", "_:x0"), ("_:self", "ex:p4", "_:x1")), input("_:x1", "_:x0"), graph(None))]
	pub b: T52,
}

impl Tv for T53 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		if let Some(v) = &self.d { m.insert(text("d"), v.to_value()); }
		m.insert(text("b"), self.b.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T53 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, d: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, b: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:t54p2", "_:self")), head("_:v"), intro("v"), list)]
pub struct T54(#[tldr(graph(None))] pub Vec<String>);

impl Tv for T54 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T54((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum, input("self", "b"))]
pub enum T55 {
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"), graph(Some("ex:g1")))]
	Qux(String),
}

impl Tv for T55 {
	fn to_value(&self) -> Value {
		match self {
			Self::Qux(v) => tagged("Qux", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(1) { _ => Self::Qux(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t56p1", "_:v")), record, intro("v"))]
pub struct T56 {

}

impl Tv for T56 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T56 {  }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record, input("b", "self"))]
pub struct T57 {
	#[tldr("ex:p0")]
	pub d: T56,
	#[tldr(dataset(("_:self", "ex:t57p2", "_:value")))]
	pub c: Option<u64>,
}

impl Tv for T57 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("d"), self.d.to_value());
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T57 { d: Tv::gen(rng, depth + 1), c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v"))]
#[tldr(dataset(("_:self", "ex:p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
pub struct T58 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t58p2", "_:x0"), ("_:v", "ex:t58p3", "_:x1")), input("_:x0", "_:x1"))]
	pub c: Option<T44>,
}

impl Tv for T58 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T58 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("self", "b"))]
pub struct T59 {
	#[tldr("ex:p4")]
	pub b: T54,
	#[tldr(dataset(("_:self", "ex:t59p2", "_:value")), input("_:value"), graph(None))]
	pub a: Option<String>,
}

impl Tv for T59 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("b"), self.b.to_value());
		if let Some(v) = &self.a { m.insert(text("a"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T59 { b: Tv::gen(rng, depth + 1), a: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p2", "_:v"), ("_:self", "ex:t60p2", "_:w")), intro("v", "w"), list)]
pub struct T60( pub Vec<T51>);

impl Tv for T60 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T60((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T61 {
	#[tldr(intro("x0", "x1", "y", "self"), dataset(("_:x0", "ex:t61p1", "_:x0", "ex:g1"), ("_:x1", "ex:t61p2", "_:x1"), ("_:x1", "ex:t61p3", "_:y"), ("_:x0", "ex:p0", "_:self")), input("_:x1", "_:self"))]
	pub b: Option<T55>,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t61p5", "_:x0")), input("_:x0"), graph(None))]
	pub a: Option<i8>,
}

impl Tv for T61 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.b { m.insert(text("b"), v.to_value()); }
		if let Some(v) = &self.a { m.insert(text("a"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T61 { b: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, a: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record, dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")))]
pub struct T62 {
	#[tldr("ex:p2")]
	pub c: u64,
	#[tldr(dataset(("_:self", "ex:t62p2", "_:value")))]
	pub b: T50,
}

impl Tv for T62 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		m.insert(text("c"), self.c.to_value());
		m.insert(text("b"), self.b.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T62 { c: Tv::gen(rng, depth + 1), b: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:self", "ex:p2", "_:self")))]
pub enum T63 {
	#[tldr(graph(Some("ex:g0")))]
	Bar(u8),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t63p2", "_:x0"), ("_:self", "_:x0", "_:y")), input("_:x0"))]
	Baz(T49),
	#[tldr(intro("x0", "x1", "gv"), dataset(("_:self", "_:self", "_:x0", "_:gv"), ("_:x0", "ex:p1", "_:x1")), input("_:x1", "_:x0"), graph(Some("_:gv")))]
	Foo(T55),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:p0", "_:x0"), ("_:self", "ex:p2", "_:y")), input("_:x0"), graph(_))]
	Qux(u8),
}

impl Tv for T63 {
	fn to_value(&self) -> Value {
		match self {
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Qux(v) => tagged("Qux", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(4) { 0 => Self::Bar(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), 2 => Self::Foo(Tv::gen(rng, depth + 1)), _ => Self::Qux(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:a"), input("a"), list)]
pub struct T64(#[tldr(head("head"), rest("next"), intro("x0", "y", "gv"), dataset(("_:next", "ex:p3", "_:x0", "_:gv"), ("_:x0", "ex:t64p2", "_:y", "ex:g0"), ("_:head", "ex:next", "_:next")), input("_:y"), graph(Some("_:gv")))] pub Vec<i8>);

impl Tv for T64 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T64((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"), dataset(("_:self", "ex:t65p1", "_:v"), ("_:v", "ex:t65p2", "_:w")))]
#[tldr(tail("_:v"), list)]
pub struct T65(#[tldr(rest("rest"), dataset(("_:rest", "ex:t65p3", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")))] pub Vec<String>);

impl Tv for T65 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T65((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:p3", "_:self"), ("_:v", "ex:t66p3", "_:w"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("v", "w"))]
pub enum T66 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:p2", "_:x0", "ex:g0"), ("_:v", "ex:t66p5", "_:x1")), input("_:x1", "_:x0"))]
	Qux(T52),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V3")))]
	Foo(u64),
	#[tldr(intro("x0"), dataset(("_:v", "ex:p0", "_:x0")), input("_:x0"))]
	Bar(T64),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V0")), graph(Some("ex:g0")))]
	Baz(T64),
}

impl Tv for T66 {
	fn to_value(&self) -> Value {
		match self {
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(4) { 0 => Self::Qux(Tv::gen(rng, depth + 1)), 1 => Self::Foo(Tv::gen(rng, depth + 1)), 2 => Self::Bar(Tv::gen(rng, depth + 1)), _ => Self::Baz(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:self", "ex:t67p1", "_:w")))]
pub struct T67 {
	#[tldr(intro("x0", "x1"), dataset(("_:w", "ex:t67p2", "_:x0"), ("_:self", "_:x0", "_:x1")), input("_:x0", "_:x1"))]
	pub c: Option<T55>,
}

impl Tv for T67 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T67 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("b", "self"), datatype("ex:D"), string, resource("_:self"))]
pub struct T68(pub String);

impl Tv for T68 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T68(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:self", "_:self", "_:w", "ex:g0")), set)]
pub struct T69(#[tldr("ex:p4")] pub Vec<T56>);

impl Tv for T69 {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T69((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(unit, input("b", "self"))]
pub struct T70;

impl Tv for T70 {
	fn to_value(&self) -> Value {
		Value::Literal(Literal::Unit)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T70
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:v"), list, dataset(("_:self", "ex:t71p1", "_:v", "ex:g0")), intro("v"))]
pub struct T71(#[tldr(head("head"), rest("m"), dataset(("_:head", "ex:t71p2", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:m")), graph(_))] pub Vec<T64>);

impl Tv for T71 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T71((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record)]
pub struct T72 {
	#[tldr(dataset(("_:self", "ex:p0", "_:value", "ex:g1"), ("_:value", "ex:t72p2", "_:value")), input("_:value"), graph(Some("ex:g0")))]
	pub c: Option<i32>,
}

impl Tv for T72 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T72 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes, dataset(("_:self", "ex:t73p1", "_:v")), resource("_:v"), intro("v"), datatype("xsd:hexBinary"))]
pub struct T73(pub Hex);

impl Tv for T73 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T73(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set, dataset(("_:self", "ex:t74p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), intro("v"))]
pub struct T74(#[tldr(intro("x0", "v"), dataset(("_:self", "ex:t74p2", "_:x0"), ("_:x0", "ex:t74p3", "_:v")), input("_:x0"))] pub Vec<T64>);

impl Tv for T74 {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T74((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set)]
pub struct T75(#[tldr("ex:t75p1", graph(Some("ex:g0")))] pub Vec<T62>);

impl Tv for T75 {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T75((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), set)]
pub struct T76(#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:p1", "_:x0", "_:gv")), input("_:x0"))] pub Vec<u8>);

impl Tv for T76 {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T76((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), tuple)]
pub struct T77(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p1", "_:x0", "ex:g0")), input("_:x0"))]
	pub u8,
);

impl Tv for T77 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T77(Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub enum T78 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:p2", "_:x0")), input("_:x0"))]
	Qux(i32),
	#[tldr(intro("x0"), dataset(("_:self", "ex:p4", "_:x0")), input("_:x0"))]
	Baz(T75),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t78p3", "_:x0")), input("_:x0"))]
	Foo(i8),
}

impl Tv for T78 {
	fn to_value(&self) -> Value {
		match self {
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(3) { 0 => Self::Qux(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), _ => Self::Foo(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T79 {
	#[tldr(intro("x0", "x1", "y", "self", "gv"), dataset(("_:x1", "ex:t79p1", "_:x0", "_:gv"), ("_:y", "_:self", "_:x1"), ("_:x1", "_:self", "_:y"), ("_:x1", "ex:t79p4", "_:self", "ex:g0")), input("_:y", "_:x0"))]
	pub c: Option<T68>,
	#[tldr(dataset(("_:self", "ex:t79p5", "_:value")), graph(_))]
	pub d: Option<i32>,
}

impl Tv for T79 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		if let Some(v) = &self.d { m.insert(text("d"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T79 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, d: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"))]
pub enum T80 {
	#[tldr(intro("x0", "a"), dataset(("_:b", "ex:t80p1", "_:x0"), ("_:x0", "_:x0", "_:a")), input("_:x0"))]
	Qux(i8),
	#[tldr(intro("x0", "gv"), dataset(("_:a", "ex:p0", "_:x0", "_:gv")), input("_:x0"), graph(Some("_:gv")))]
	Baz(T75),
	#[tldr(intro("x0"), dataset(("_:a", "ex:t80p4", "_:x0")), input("_:x0"))]
	Bar(u64),
}

impl Tv for T80 {
	fn to_value(&self) -> Value {
		match self {
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(3) { 0 => Self::Qux(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), _ => Self::Bar(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:b", "_:a", "_:v", "ex:g1")), input("a", "b"), intro("v"))]
pub struct T81 {
	#[tldr(intro("x0", "gv"), dataset(("_:a", "ex:t81p2", "_:x0", "_:gv")), input("_:x0"))]
	pub c: Option<i32>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t81p3", "_:x0")), input("_:x0"))]
	pub b: String,
}

impl Tv for T81 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		m.insert(text("b"), self.b.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T81 { c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, b: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v"), dataset(("_:self", "_:self", "_:v", "ex:g0"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub enum T82 {
	#[tldr(intro("x0", "x1"), dataset(("_:v", "ex:t82p2", "_:x0"), ("_:v", "ex:t82p3", "_:v"), ("_:x0", "ex:t82p4", "_:x1")), input("_:x1", "_:x0"))]
	Foo(T80),
}

impl Tv for T82 {
	fn to_value(&self) -> Value {
		match self {
			Self::Foo(v) => tagged("Foo", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(1) { _ => Self::Foo(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), datatype("xsd:integer"), resource("_:a"), intro("v", "w"), number)]
#[tldr(dataset(("_:a", "ex:t83p1", "_:v"), ("_:a", "ex:t83p2", "_:w")))]
pub struct T83(pub i64);

impl Tv for T83 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T83(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T84(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p0", "_:x0")), input("_:x0"))]
	pub T82,
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t84p2", "_:x0"), ("_:self", "ex:t84p3", "_:x1")), input("_:x0", "_:x1"))]
	pub T80,
);

impl Tv for T84 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T84(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(datatype("ex:D"), string, dataset(("_:self", "ex:p1", "_:v")))]
#[tldr(intro("v"))]
pub struct T85(pub String);

impl Tv for T85 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T85(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:self"), list, intro("v", "w"))]
#[tldr(dataset(("_:self", "ex:t86p1", "_:v"), ("_:self", "ex:p3", "_:w", "ex:g1"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:w", "ex:p0", "_:w")))]
pub struct T86(#[tldr(head("head"), intro("x0", "y"), dataset(("_:head", "_:rest", "_:x0"), ("_:head", "ex:p0", "_:y", "ex:g1"), ("_:head", "ex:next", "_:rest")), input("_:y"))] pub Vec<T75>);

impl Tv for T86 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T86((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"))]
#[tldr(string, dataset(("_:self", "ex:t87p1", "_:v"), ("_:self", "ex:p1", "_:w", "ex:g1")), resource("_:w"))]
pub struct T87(pub String);

impl Tv for T87 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T87(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T88 {
	#[tldr("ex:t88p1")]
	pub d: Option<T75>,
	#[tldr("ex:p2")]
	pub b: i64,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t88p3", "_:x0")), input("_:x0"))]
	pub c: Option<T78>,
}

impl Tv for T88 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.d { m.insert(text("d"), v.to_value()); }
		m.insert(text("b"), self.b.to_value());
		if let Some(v) = &self.c { m.insert(text("c"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T88 { d: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, b: Tv::gen(rng, depth + 1), c: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(datatype("ex:D"), resource("_:w"), string, dataset(("_:self", "ex:t89p1", "_:v"), ("_:self", "ex:t89p2", "_:w")))]
#[tldr(intro("v", "w"))]
pub struct T89(pub String);

impl Tv for T89 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T89(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, head("_:self"), dataset(("_:self", "ex:t90p1", "_:w")), intro("w"))]
pub struct T90( pub Vec<i32>);

impl Tv for T90 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T90((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t91p1", "_:w")), intro("w"), set)]
pub struct T91(#[tldr("ex:p2")] pub Vec<String>);

impl Tv for T91 {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T91((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes)]
#[tldr(intro("v"), resource("_:v"), datatype("xsd:hexBinary"), dataset(("_:v", "ex:t92p2", "_:self"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T92(pub Hex);

impl Tv for T92 {
	fn to_value(&self) -> Value {
		self.0.to_value()
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T92(Tv::gen(rng, depth))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T93( pub Vec<i8>);

impl Tv for T93 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T93((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t94p1", "_:w")))]
#[tldr(intro("w"))]
pub struct T94 {
	#[tldr("ex:t94p2")]
	pub a: Option<T93>,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t94p3", "_:x0")), input("ex:n1"))]
	pub c: T86,
}

impl Tv for T94 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		if let Some(v) = &self.a { m.insert(text("a"), v.to_value()); }
		m.insert(text("c"), self.c.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T94 { a: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None }, c: Tv::gen(rng, depth + 1), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(tuple)]
pub struct T95(
	#[tldr(dataset(("_:self", "ex:t95p1", "_:value")), input("_:value"), graph(None))]
	pub u8,
	#[tldr(dataset(("_:self", "ex:p2", "_:value")))]
	pub T90,
);

impl Tv for T95 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T95(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T96( pub Vec<i64>);

impl Tv for T96 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T96((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T97(#[tldr(graph(Some("ex:g0")))] pub Vec<T94>);

impl Tv for T97 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T97((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t98p1", "_:w", "ex:g1")), intro("w"))]
pub struct T98 {

}

impl Tv for T98 {
	fn to_value(&self) -> Value {
		#[allow(unused_mut)]
		let mut m = BTreeMap::new();
		
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T98 {  }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, tail("_:v"), dataset(("_:self", "ex:t99p1", "_:v")), intro("v"))]
pub struct T99(#[tldr(graph(None))] pub Vec<u64>);

impl Tv for T99 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T99((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "_:b", "_:w")), intro("w"), input("b", "self"))]
pub enum T100 {
	#[tldr(intro("x0", "w"), dataset(("_:b", "ex:t100p2", "_:x0"), ("_:self", "ex:p2", "_:self"), ("_:x0", "_:self", "_:w", "ex:g0")), input("_:w"))]
	Foo(String),
	#[tldr(intro("x0", "gv"), dataset(("_:b", "ex:p0", "_:x0", "_:gv"), ("_:x0", "ex:p4", "_:x0")), input("_:x0"), graph(Some("_:gv")))]
	Baz(String),
	#[tldr(intro("x0", "w"), dataset(("_:b", "ex:p2", "_:x0"), ("_:self", "ex:p4", "_:w")), input("_:x0"))]
	Qux(i32),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t100p9", "_:x0")), input("_:x0"))]
	Bar(u8),
}

impl Tv for T100 {
	fn to_value(&self) -> Value {
		match self {
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Qux(v) => tagged("Qux", v.to_value()),
			Self::Bar(v) => tagged("Bar", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(4) { 0 => Self::Foo(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), 2 => Self::Qux(Tv::gen(rng, depth + 1)), _ => Self::Bar(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:v"), intro("v"), input("a"), dataset(("_:a", "ex:p3", "_:v")), list, tail("_:a"))]
pub struct T101(#[tldr(dataset(("_:head", "ex:p0", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")), input("_:value"))] pub Vec<i8>);

impl Tv for T101 {
	fn to_value(&self) -> Value {
		Value::List(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T101((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T102(
	#[tldr(intro("x0"), dataset(("_:self", "ex:t102p1", "_:x0", "ex:g1"), ("_:self", "ex:t102p2", "_:self")), input("_:x0"))]
	pub T91,
);

impl Tv for T102 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T102(Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t103p1", "_:w")))]
#[tldr(intro("w"))]
pub enum T103 {
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t103p2", "_:x0"), ("_:w", "ex:t103p3", "_:y")), input("_:x0"), graph(Some("ex:g0")))]
	Bar(i8),
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:t103p4", "_:x0"), ("_:x0", "ex:p0", "_:y")), input("_:x0"))]
	Baz(String),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V2")))]
	Foo(T89),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t103p6", "_:x0", "ex:g0")), input("_:x0"))]
	Qux(T98),
}

impl Tv for T103 {
	fn to_value(&self) -> Value {
		match self {
			Self::Bar(v) => tagged("Bar", v.to_value()),
			Self::Baz(v) => tagged("Baz", v.to_value()),
			Self::Foo(v) => tagged("Foo", v.to_value()),
			Self::Qux(v) => tagged("Qux", v.to_value()),
		}
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		match rng.below(4) { 0 => Self::Bar(Tv::gen(rng, depth + 1)), 1 => Self::Baz(Tv::gen(rng, depth + 1)), 2 => Self::Foo(Tv::gen(rng, depth + 1)), _ => Self::Qux(Tv::gen(rng, depth + 1)), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T104(
	#[tldr("ex:t104p1")]
	pub u8,
	#[tldr("ex:t104p2")]
	pub i64,
);

impl Tv for T104 {
	fn to_value(&self) -> Value {
		Value::List(vec![self.0.to_value(), self.1.to_value()])
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		T104(Tv::gen(rng, depth + 1), Tv::gen(rng, depth + 1))
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct Tree {
	#[tldr("ex:label")]
	pub label: Option<String>,
	#[tldr(input("_:self"))]
	pub children: Forest,
}

impl Tv for Tree {
	fn to_value(&self) -> Value {
		let mut m = BTreeMap::new();
		if let Some(v) = &self.label { m.insert(text("label"), v.to_value()); }
		m.insert(text("children"), self.children.to_value());
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		Tree { label: if rng.pct(80) { Some(Tv::gen(rng, depth + 1)) } else { None }, children: Tv::gen(rng, depth + 1) }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set)]
pub struct Forest(#[tldr("ex:child")] pub Vec<Tree>);

impl Tv for Forest {
	fn to_value(&self) -> Value {
		bag(self.0.iter().map(Tv::to_value).collect())
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		Forest((0..if depth > 4 { 0 } else { *rng.pick(&[0, 1, 1, 2, 3]) }).map(|_| Tv::gen(rng, depth + 1)).collect())
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct Raw {
	#[tldr("ex:p1")]
	pub r#type: String,
	#[tldr("ex:p2")]
	pub r#loop: Option<i32>,
}

impl Tv for Raw {
	fn to_value(&self) -> Value {
		let mut m = BTreeMap::new();
		m.insert(text("type"), self.r#type.to_value());
		if let Some(v) = &self.r#loop { m.insert(text("loop"), v.to_value()); }
		Value::Map(m)
	}
	fn gen(rng: &mut Rng, depth: usize) -> Self {
		let _ = (&rng, depth);
		Raw { r#type: Tv::gen(rng, depth + 1), r#loop: if rng.pct(60) { Some(Tv::gen(rng, depth + 1)) } else { None } }
	}
}

pub static ENTRIES: &[Entry] = &[
	Entry {
		name: "T1",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:a", "ex:t1p1", "_:v"), ("_:a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), intro("v"))]
#[tldr(input("a", "b"), string, resource("_:a"), datatype("xsd:string"))]
pub struct T1(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T1".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t1p1".into()), Pat::var("v"), None), QuadP(Pat::var("a"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, Some(Pat::var("a")), Some("http://www.w3.org/2001/XMLSchema#string".into()), None),
		ops: ops!(T1, 2),
	},
	Entry {
		name: "T2",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(string, resource("_:self"), datatype("xsd:string"), intro("v"), dataset(("_:self", "ex:t2p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T2(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T2".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t2p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, Some(Pat::var("self")), Some("http://www.w3.org/2001/XMLSchema#string".into()), None),
		ops: ops!(T2, 1),
	},
	Entry {
		name: "T3",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:byte"))]
pub struct T3(pub i8);"#,
		lay: || Lay::Number(Header { id: Some("https://ex.org/T3".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, None, "http://www.w3.org/2001/XMLSchema#byte".into()),
		ops: ops!(T3, 1),
	},
	Entry {
		name: "T4",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:byte"))]
pub struct T4(pub i8);"#,
		lay: || Lay::Number(Header { id: Some("https://ex.org/T4".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, None, "http://www.w3.org/2001/XMLSchema#byte".into()),
		ops: ops!(T4, 1),
	},
	Entry {
		name: "T5",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(boolean, intro("v", "w"), dataset(("_:self", "ex:t5p1", "_:v"), ("_:v", "ex:t5p2", "_:w")))]
#[tldr(resource("_:w"))]
pub struct T5(pub bool);"#,
		lay: || Lay::Boolean(Header { id: Some("https://ex.org/T5".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t5p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t5p2".into()), Pat::var("w"), None)], ..Header::default() }, Some(Pat::var("w")), None),
		ops: ops!(T5, 1),
	},
	Entry {
		name: "T6",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(string)]
pub struct T6(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T6".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, None, None, None),
		ops: ops!(T6, 1),
	},
	Entry {
		name: "T7",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), datatype("xsd:string"), resource("_:a"), dataset(("_:a", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), string)]
pub struct T7(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T7".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None)], ..Header::default() }, Some(Pat::var("a")), Some("http://www.w3.org/2001/XMLSchema#string".into()), None),
		ops: ops!(T7, 1),
	},
	Entry {
		name: "T8",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(unit)]
pub struct T8;"#,
		lay: || Lay::Unit(Header { id: Some("https://ex.org/T8".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, None),
		ops: ops!(T8, 1),
	},
	Entry {
		name: "T9",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(resource("_:b"), string, input("self", "b"), datatype("xsd:token"))]
pub struct T9(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T9".into()), input: Some(vec!["self".into(), "b".into()]), intro: vec![], dataset: vec![], ..Header::default() }, Some(Pat::var("b")), Some("http://www.w3.org/2001/XMLSchema#token".into()), None),
		ops: ops!(T9, 2),
	},
	Entry {
		name: "T10",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"), intro("v", "w"), resource("_:w"), datatype("ex:D"), dataset(("_:a", "ex:t10p1", "_:v"), ("_:w", "ex:t10p3", "_:a")), string)]
pub struct T10(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T10".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t10p1".into()), Pat::var("v"), None), QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t10p3".into()), Pat::var("a"), None)], ..Header::default() }, Some(Pat::var("w")), Some("https://ex.org/D".into()), None),
		ops: ops!(T10, 2),
	},
	Entry {
		name: "T11",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number, datatype("xsd:unsignedInt"))]
pub struct T11(pub u32);"#,
		lay: || Lay::Number(Header { id: Some("https://ex.org/T11".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, None, "http://www.w3.org/2001/XMLSchema#unsignedInt".into()),
		ops: ops!(T11, 1),
	},
	Entry {
		name: "T12",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(id, intro("v", "w"), dataset(("_:self", "ex:t12p1", "_:v"), ("_:self", "ex:t12p2", "_:w"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), resource("_:w"))]
pub struct T12(pub rdf_types::Id);

impl treeldr::AsId for T12 {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
		self.0.as_lexical_id_ref()
	}
}"#,
		lay: || Lay::Id(Header { id: Some("https://ex.org/T12".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t12p1".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t12p2".into()), Pat::var("w"), None), QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None)], ..Header::default() }, Some(Pat::var("w")), None),
		ops: ops!(T12, 1),
	},
	Entry {
		name: "T13",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p0", "_:w")))]
#[tldr(intro("w"))]
pub struct T13;"#,
		lay: || Lay::Unit(Header { id: Some("https://ex.org/T13".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("w"), None)], ..Header::default() }, None),
		ops: ops!(T13, 1),
	},
	Entry {
		name: "T14",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "_:self", "_:self"), ("_:v", "ex:t14p3", "_:w")), datatype("xsd:boolean"), intro("v", "w"))]
#[tldr(resource("_:self"), boolean)]
pub struct T14(pub bool);"#,
		lay: || Lay::Boolean(Header { id: Some("https://ex.org/T14".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("v"), Pat::var("self"), Pat::var("self"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t14p3".into()), Pat::var("w"), None)], ..Header::default() }, Some(Pat::var("self")), Some("http://www.w3.org/2001/XMLSchema#boolean".into())),
		ops: ops!(T14, 1),
	},
	Entry {
		name: "T15",
		inputs: 1,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p0", "_:w")), intro("w"), list, tail("_:w"))]
pub struct T15(#[tldr(graph(None))] pub Vec<String>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T15".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Default), dataset: None }), None, Some(Pat::var("w"))),
		ops: ops!(T15, 1),
	},
	Entry {
		name: "T16",
		inputs: 1,
		deps: &["String", "T15"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
pub struct T16 {
	#[tldr(dataset(("_:self", "ex:t16p1", "_:value", "ex:g0")), input("_:value"), graph(Some("ex:g0")))]
	pub c: T15,
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:p2", "_:x0"), ("_:x0", "ex:t16p3", "_:y")), input("_:y"), graph(None))]
	pub b: Option<String>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T16".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T15".into()), Some(vec![Pat::var("value")]), GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t16p1".into()), Pat::var("value"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: true }), ("b".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("y")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t16p3".into()), Pat::var("y"), None)], property: None, required: false })]),
		ops: ops!(T16, 1),
	},
	Entry {
		name: "T17",
		inputs: 1,
		deps: &["u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), head("_:a"))]
#[tldr(list)]
pub struct T17(#[tldr(head("head"), rest("next"), dataset(("_:head", "_:head", "_:value"), ("_:head", "ex:next", "_:next")), input("_:value"))] pub Vec<u8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T17".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: Some("head".into()), rest: Some("next".into()), intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("value")]), GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("head"), Pat::var("head"), Pat::var("value"), None), QuadP(Pat::var("head"), Pat::Iri("https://ex.org/next".into()), Pat::var("next"), None)]) }), Some(Pat::var("a")), None),
		ops: ops!(T17, 1),
	},
	Entry {
		name: "T18",
		inputs: 1,
		deps: &["T6"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T18(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p0", "_:x0")), input("_:x0"))]
	pub T6,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T18".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T6".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None)], property: None, required: false }]),
		ops: ops!(T18, 1),
	},
	Entry {
		name: "T19",
		inputs: 1,
		deps: &["T18"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record)]
pub struct T19 {
	#[tldr("ex:p1")]
	pub d: T18,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T19".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T18".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p1".into())), required: true })]),
		ops: ops!(T19, 1),
	},
	Entry {
		name: "T20",
		inputs: 2,
		deps: &["String", "T12", "i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:b", "ex:t20p1", "_:w")), input("a", "b"))]
pub struct T20 {
	#[tldr(dataset(("_:b", "ex:p1", "_:value")))]
	pub a: T12,
	#[tldr(intro("x0", "y"), dataset(("_:a", "ex:t20p3", "_:x0", "ex:g0"), ("_:b", "ex:t20p4", "_:y")), input("_:y"), graph(_))]
	pub d: i32,
	#[tldr(intro("x0"), dataset(("_:b", "ex:p0", "_:x0")), input("_:x0"), graph(_))]
	pub b: Option<String>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t20p6", "_:x0")), input("_:x0"))]
	pub c: Option<i32>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T20".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/t20p1".into()), Pat::var("w"), None)], ..Header::default() }, vec![("a".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T12".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p1".into()), Pat::var("value"), None)], property: None, required: true }), ("d".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("y")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t20p3".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g0".into()))), QuadP(Pat::var("b"), Pat::Iri("https://ex.org/t20p4".into()), Pat::var("y"), None)], property: None, required: true }), ("b".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None)], property: None, required: false }), ("c".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t20p6".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T20, 2),
	},
	Entry {
		name: "T21",
		inputs: 1,
		deps: &["String", "T7"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:w", "_:self", "_:self")), tuple)]
#[tldr(intro("w"))]
pub struct T21(
	#[tldr(intro("value", "gv"), dataset(("_:self", "ex:t21p3", "_:value", "_:gv")), graph(Some("_:gv")))]
	pub T7,
	#[tldr("ex:p3", graph(Some("ex:g1")))]
	pub String,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T21".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("w"), Pat::var("self"), Pat::var("self"), None)], ..Header::default() }, vec![Comp { intro: Some(vec!["value".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T7".into()), None, GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t21p3".into()), Pat::var("value"), Some(Pat::var("gv")))], property: None, required: false }, Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g1".into()))), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p3".into())), required: false }]),
		ops: ops!(T21, 1),
	},
	Entry {
		name: "T22",
		inputs: 1,
		deps: &["i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t22p1", "_:v"), ("_:self", "ex:t22p2", "_:w"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("v", "w"))]
pub struct T22(
	#[tldr("ex:t22p3")]
	pub i32,
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:p0", "_:x0"), ("_:self", "ex:t22p5", "_:y")), input("_:x0"), graph(None))]
	pub i32,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T22".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t22p1".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t22p2".into()), Pat::var("w"), None), QuadP(Pat::var("v"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t22p3".into())), required: false }, Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Default), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t22p5".into()), Pat::var("y"), None)], property: None, required: false }]),
		ops: ops!(T22, 1),
	},
	Entry {
		name: "T23",
		inputs: 1,
		deps: &["String", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub enum T23 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:p3", "_:x0")), input("_:x0"), graph(Some("ex:g1")))]
	Bar(u64),
	#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:t23p2", "_:x0", "_:gv")), input("_:x0"))]
	Baz(String),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T23".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::Iri("https://ex.org/g1".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t23p2".into()), Pat::var("x0"), Some(Pat::var("gv")))], property: None, required: false })]),
		ops: ops!(T23, 1),
	},
	Entry {
		name: "T24",
		inputs: 2,
		deps: &["T10", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("b", "self"))]
pub enum T24 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:p2", "_:x0"), ("_:x0", "ex:t24p2", "_:x1")), input("_:x0", "_:x1"))]
	Qux(T10),
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"))]
	Foo(u8),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T24".into()), input: Some(vec!["b".into(), "self".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![("Foo".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T10".into()), Some(vec![Pat::var("x0"), Pat::var("x1")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t24p2".into()), Pat::var("x1"), None)], property: None, required: false })]),
		ops: ops!(T24, 2),
	},
	Entry {
		name: "T25",
		inputs: 1,
		deps: &["i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(tail("ex:end"), list)]
pub struct T25( pub Vec<i8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T25".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), None, GraphA::Keep), dataset: None }), None, Some(Pat::Iri("https://ex.org/end".into()))),
		ops: ops!(T25, 1),
	},
	Entry {
		name: "T26",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(number)]
#[tldr(datatype("xsd:unsignedByte"), dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")))]
pub struct T26(pub u8);"#,
		lay: || Lay::Number(Header { id: Some("https://ex.org/T26".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None)], ..Header::default() }, None, "http://www.w3.org/2001/XMLSchema#unsignedByte".into()),
		ops: ops!(T26, 1),
	},
	Entry {
		name: "T27",
		inputs: 1,
		deps: &["T14", "T26", "i32", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T27 {
	#[tldr(intro("value", "gv"), dataset(("_:self", "ex:t27p1", "_:value", "_:gv")))]
	pub a: T14,
	#[tldr(dataset(("_:self", "ex:t27p2", "_:value", "ex:g0")), graph(Some("ex:g1")))]
	pub c: Option<i32>,
	#[tldr("ex:t27p3")]
	pub b: Option<u8>,
	#[tldr(intro("x0", "y", "gv"), dataset(("_:self", "ex:p2", "_:x0", "_:gv"), ("_:self", "ex:p3", "_:y")), input("_:x0"), graph(Some("_:gv")))]
	pub d: T26,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T27".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("a".into(), Comp { intro: Some(vec!["value".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T14".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t27p1".into()), Pat::var("value"), Some(Pat::var("gv")))], property: None, required: true }), ("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g1".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t27p2".into()), Pat::var("value"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false }), ("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t27p3".into())), required: false }), ("d".into(), Comp { intro: Some(vec!["x0".into(), "y".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T26".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p3".into()), Pat::var("y"), None)], property: None, required: true })]),
		ops: ops!(T27, 1),
	},
	Entry {
		name: "T28",
		inputs: 1,
		deps: &["u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:p4", "_:self"), ("_:v", "ex:t28p3", "_:w")), intro("v", "w"))]
pub struct T28 {
	#[tldr("ex:t28p4")]
	pub d: u64,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T28".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/p4".into()), Pat::var("self"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t28p3".into()), Pat::var("w"), None)], ..Header::default() }, vec![("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t28p4".into())), required: true })]),
		ops: ops!(T28, 1),
	},
	Entry {
		name: "T29",
		inputs: 1,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T29 {
	#[tldr(dataset(("_:self", "ex:t29p1", "_:value")))]
	pub b: String,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T29".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t29p1".into()), Pat::var("value"), None)], property: None, required: true })]),
		ops: ops!(T29, 1),
	},
	Entry {
		name: "T30",
		inputs: 1,
		deps: &["String", "i32", "i64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t30p1", "_:w")), intro("w"))]
pub enum T30 {
	#[tldr(intro("x0"), dataset(("_:w", "ex:t30p2", "_:x0")), input("_:x0"))]
	Foo(i32),
	#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:t30p3", "_:x0", "_:gv")), input("_:x0"), graph(Some("_:gv")))]
	Bar(String),
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:t30p4", "_:x0"), ("_:self", "ex:t30p5", "_:y")), input("_:x0"))]
	Baz(i64),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T30".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t30p1".into()), Pat::var("w"), None)], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t30p3".into()), Pat::var("x0"), Some(Pat::var("gv")))], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i64".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t30p4".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t30p5".into()), Pat::var("y"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t30p2".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T30, 1),
	},
	Entry {
		name: "T31",
		inputs: 1,
		deps: &["u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), list, head("_:a"))]
pub struct T31( pub Vec<u64>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T31".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: None }), Some(Pat::var("a")), None),
		ops: ops!(T31, 1),
	},
	Entry {
		name: "T32",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"), dataset(("_:v", "ex:t32p2", "_:b"), ("_:a", "ex:t32p3", "_:a")), intro("v"))]
pub struct T32 {

}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T32".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t32p2".into()), Pat::var("b"), None), QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t32p3".into()), Pat::var("a"), None)], ..Header::default() }, vec![]),
		ops: ops!(T32, 2),
	},
	Entry {
		name: "T33",
		inputs: 1,
		deps: &["T25"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(tail("ex:end"), list, head("_:self"))]
pub struct T33( pub Vec<T25>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T33".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T25".into()), None, GraphA::Keep), dataset: None }), Some(Pat::var("self")), Some(Pat::Iri("https://ex.org/end".into()))),
		ops: ops!(T33, 1),
	},
	Entry {
		name: "T34",
		inputs: 1,
		deps: &["String", "T30"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p4", "_:v")), tuple, intro("v"))]
pub struct T34(
	#[tldr(dataset(("_:self", "ex:p1", "_:value")))]
	pub String,
	#[tldr(dataset(("_:v", "ex:p0", "_:value")), input("_:value"))]
	pub T30,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T34".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p4".into()), Pat::var("v"), None)], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("value"), None)], property: None, required: false }, Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T30".into()), Some(vec![Pat::var("value")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/p0".into()), Pat::var("value"), None)], property: None, required: false }]),
		ops: ops!(T34, 1),
	},
	Entry {
		name: "T35",
		inputs: 1,
		deps: &["u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T35 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:t35p1", "_:x0")), input("_:x0"))]
	pub c: Option<u64>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T35".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("c".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t35p1".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T35, 1),
	},
	Entry {
		name: "T36",
		inputs: 1,
		deps: &["T29", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T36(
	#[tldr("ex:t36p1")]
	pub T29,
	#[tldr(dataset(("_:self", "ex:t36p2", "_:value", "ex:g0")), input("_:value"))]
	pub u8,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T36".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T29".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t36p1".into())), required: false }, Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("value")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t36p2".into()), Pat::var("value"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false }]),
		ops: ops!(T36, 1),
	},
	Entry {
		name: "T37",
		inputs: 1,
		deps: &["i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, intro("w"), dataset(("_:self", "ex:t37p1", "_:w")))]
pub struct T37(#[tldr(graph(Some("ex:g0")))] pub Vec<i8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T37".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t37p1".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: None }), None, None),
		ops: ops!(T37, 1),
	},
	Entry {
		name: "T38",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes, dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), datatype("xsd:hexBinary"))]
pub struct T38(pub Hex);"#,
		lay: || Lay::Bytes(Header { id: Some("https://ex.org/T38".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, None, "http://www.w3.org/2001/XMLSchema#hexBinary".into()),
		ops: ops!(T38, 1),
	},
	Entry {
		name: "T39",
		inputs: 1,
		deps: &["u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"))]
pub struct T39(
	#[tldr(dataset(("_:a", "ex:t39p1", "_:value")))]
	pub u8,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T39".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t39p1".into()), Pat::var("value"), None)], property: None, required: false }]),
		ops: ops!(T39, 1),
	},
	Entry {
		name: "T40",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"))]
#[tldr(dataset(("_:self", "ex:t40p1", "_:v"), ("_:v", "ex:t40p2", "_:w")))]
pub struct T40 {

}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T40".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t40p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t40p2".into()), Pat::var("w"), None)], ..Header::default() }, vec![]),
		ops: ops!(T40, 1),
	},
	Entry {
		name: "T41",
		inputs: 1,
		deps: &["T30", "T31", "i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T41 {
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V3")))]
	Foo(T30),
	#[tldr(intro("x0"), dataset(("_:self", "_:self", "_:x0")), input("ex:n0"))]
	Baz(T31),
	#[tldr(intro("x0", "y", "gv"), dataset(("_:self", "ex:p4", "_:x0", "_:gv"), ("_:self", "ex:p2", "_:y")), input("_:y"))]
	Bar(i8),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T41".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into(), "y".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("y")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p4".into()), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("y"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T31".into()), Some(vec![Pat::Iri("https://ex.org/n0".into())]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("x0"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T30".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/V3".into()), None)], property: None, required: false })]),
		ops: ops!(T41, 1),
	},
	Entry {
		name: "T42",
		inputs: 1,
		deps: &["T34", "T36"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t42p1", "_:w"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("w"))]
pub struct T42 {
	#[tldr("ex:p4")]
	pub b: Option<T36>,
	#[tldr(intro("x0", "self"), dataset(("_:w", "ex:t42p3", "_:x0"), ("_:x0", "_:x0", "_:self")), input("_:x0"))]
	pub c: T34,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T42".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t42p1".into()), Pat::var("w"), None), QuadP(Pat::var("w"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T36".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p4".into())), required: false }), ("c".into(), Comp { intro: Some(vec!["x0".into(), "self".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T34".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t42p3".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::var("x0"), Pat::var("self"), None)], property: None, required: true })]),
		ops: ops!(T42, 1),
	},
	Entry {
		name: "T43",
		inputs: 1,
		deps: &["String", "T41"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T43 {
	#[tldr(intro("x0", "self"), dataset(("_:self", "ex:p1", "_:x0"), ("_:self", "ex:t43p2", "_:self")), input("_:self"))]
	Foo(T41),
	#[tldr(intro("x0"), dataset(("_:self", "ex:p1", "_:x0", "ex:g1")), input("_:x0"))]
	Bar(String),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T43".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g1".into())))], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into(), "self".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T41".into()), Some(vec![Pat::var("self")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t43p2".into()), Pat::var("self"), None)], property: None, required: false })]),
		ops: ops!(T43, 1),
	},
	Entry {
		name: "T44",
		inputs: 2,
		deps: &["T37", "i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:b", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), input("a", "b"))]
pub struct T44 {
	#[tldr(dataset(("_:a", "ex:t44p1", "_:value")))]
	pub b: i32,
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"))]
	pub a: Option<i32>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t44p3", "_:x0")), input("_:x0"))]
	pub c: T37,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T44".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec![], dataset: vec![QuadP(Pat::var("b"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t44p1".into()), Pat::var("value"), None)], property: None, required: true }), ("a".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), None)], property: None, required: false }), ("c".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T37".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t44p3".into()), Pat::var("x0"), None)], property: None, required: true })]),
		ops: ops!(T44, 2),
	},
	Entry {
		name: "T45",
		inputs: 1,
		deps: &["String", "T32", "u64", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum)]
pub enum T45 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:t45p1", "_:x0"), ("_:x0", "ex:p1", "_:x0")), input("_:x0"), graph(None))]
	Bar(u8),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t45p3", "_:x0"), ("_:x0", "_:x0", "_:y")), input("_:x0"))]
	Qux(String),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t45p5", "_:x0"), ("_:self", "ex:t45p6", "_:y")), input("_:y"))]
	Foo(u64),
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t45p7", "_:x0"), ("_:self", "ex:t45p8", "_:x1")), input("_:x1", "_:x0"), graph(None))]
	Baz(T32),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T45".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p1".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x0"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T32".into()), Some(vec![Pat::var("x1"), Pat::var("x0")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p7".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p8".into()), Pat::var("x1"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), Some(vec![Pat::var("y")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p5".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p6".into()), Pat::var("y"), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t45p3".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::var("x0"), Pat::var("y"), None)], property: None, required: false })]),
		ops: ops!(T45, 1),
	},
	Entry {
		name: "T46",
		inputs: 1,
		deps: &["T33"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:a"))]
#[tldr(dataset(("_:a", "ex:t46p1", "_:v", "ex:g1"), ("_:a", "ex:t46p2", "_:w")), intro("v", "w"), list, input("a"))]
pub struct T46(#[tldr(rest("rest"), intro("x0"), dataset(("_:head", "ex:p3", "_:x0"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")), input("_:x0"))] pub Vec<T33>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T46".into()), input: Some(vec!["a".into()]), intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t46p1".into()), Pat::var("v"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t46p2".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: Some("rest".into()), intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T33".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("head"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), None), QuadP(Pat::var("head"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into()), Pat::var("rest"), None)]) }), Some(Pat::var("a")), None),
		ops: ops!(T46, 1),
	},
	Entry {
		name: "T47",
		inputs: 1,
		deps: &["T37"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:t47p2", "_:self")), list, intro("v"), tail("_:v"))]
pub struct T47(#[tldr(graph(Some("ex:g0")))] pub Vec<T37>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T47".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t47p2".into()), Pat::var("self"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T37".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: None }), None, Some(Pat::var("v"))),
		ops: ops!(T47, 1),
	},
	Entry {
		name: "T48",
		inputs: 1,
		deps: &["i64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "_:self", "_:self"), ("_:v", "ex:t48p3", "_:w")), tuple)]
#[tldr(intro("v", "w"))]
pub struct T48(
	#[tldr(dataset(("_:self", "ex:t48p4", "_:value")))]
	pub i64,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T48".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("v"), Pat::var("self"), Pat::var("self"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t48p3".into()), Pat::var("w"), None)], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i64".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t48p4".into()), Pat::var("value"), None)], property: None, required: false }]),
		ops: ops!(T48, 1),
	},
	Entry {
		name: "T49",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t49p1", "_:v"), ("_:w", "_:v", "_:v", "ex:g1")), intro("v", "w"))]
pub struct T49 {

}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T49".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t49p1".into()), Pat::var("v"), None), QuadP(Pat::var("w"), Pat::var("v"), Pat::var("v"), Some(Pat::Iri("https://ex.org/g1".into())))], ..Header::default() }, vec![]),
		ops: ops!(T49, 1),
	},
	Entry {
		name: "T50",
		inputs: 1,
		deps: &["T47", "i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), dataset(("_:a", "ex:t50p1", "_:a")))]
pub struct T50 {
	#[tldr(dataset(("_:a", "ex:p4", "_:value")), input("_:value"))]
	pub d: Option<T47>,
	#[tldr(dataset(("_:a", "ex:p0", "_:value")))]
	pub a: i8,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T50".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t50p1".into()), Pat::var("a"), None)], ..Header::default() }, vec![("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T47".into()), Some(vec![Pat::var("value")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/p4".into()), Pat::var("value"), None)], property: None, required: false }), ("a".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/p0".into()), Pat::var("value"), None)], property: None, required: true })]),
		ops: ops!(T50, 1),
	},
	Entry {
		name: "T51",
		inputs: 1,
		deps: &["u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, dataset(("_:self", "ex:p2", "_:v"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")), intro("v"))]
pub struct T51(#[tldr(head("head"), rest("next"), intro("value", "gv"), dataset(("_:head", "ex:t51p2", "_:value", "_:gv"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:next")), graph(Some("_:gv")))] pub Vec<u64>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T51".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, Box::new(Node::Node { head: Some("head".into()), rest: Some("next".into()), intro: Some(vec!["value".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Pat(Pat::var("gv"))), dataset: Some(vec![QuadP(Pat::var("head"), Pat::Iri("https://ex.org/t51p2".into()), Pat::var("value"), Some(Pat::var("gv"))), QuadP(Pat::var("head"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into()), Pat::var("next"), None)]) }), None, None),
		ops: ops!(T51, 1),
	},
	Entry {
		name: "T52",
		inputs: 2,
		deps: &["T46", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("self", "b"), dataset(("_:self", "ex:t52p1", "_:w"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:self", "ex:t52p2", "_:self")), intro("w"))]
pub struct T52 {
	#[tldr("ex:t52p3")]
	pub c: Option<u64>,
	#[tldr("ex:t52p4")]
	pub a: T46,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T52".into()), input: Some(vec!["self".into(), "b".into()]), intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t52p1".into()), Pat::var("w"), None), QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t52p2".into()), Pat::var("self"), None)], ..Header::default() }, vec![("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t52p3".into())), required: false }), ("a".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T46".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t52p4".into())), required: true })]),
		ops: ops!(T52, 2),
	},
	Entry {
		name: "T53",
		inputs: 1,
		deps: &["String", "T43", "T52"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T53 {
	#[tldr("ex:t53p1")]
	pub c: Option<T43>,
	#[tldr(intro("value", "gv"), dataset(("_:self", "_:self", "_:value", "_:gv")))]
	pub d: Option<String>,
	#[tldr(intro("x0", "x1"), dataset(("_:self", "_:self", "_:x0"), ("_:self", "ex:p4", "_:x1")), input("_:x1", "_:x0"), graph(None))]
	pub b: T52,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T53".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T43".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t53p1".into())), required: false }), ("d".into(), Comp { intro: Some(vec!["value".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("value"), Some(Pat::var("gv")))], property: None, required: false }), ("b".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T52".into()), Some(vec![Pat::var("x1"), Pat::var("x0")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p4".into()), Pat::var("x1"), None)], property: None, required: true })]),
		ops: ops!(T53, 1),
	},
	Entry {
		name: "T54",
		inputs: 1,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:t54p2", "_:self")), head("_:v"), intro("v"), list)]
pub struct T54(#[tldr(graph(None))] pub Vec<String>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T54".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t54p2".into()), Pat::var("self"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Default), dataset: None }), Some(Pat::var("v")), None),
		ops: ops!(T54, 1),
	},
	Entry {
		name: "T55",
		inputs: 2,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(sum, input("self", "b"))]
pub enum T55 {
	#[tldr(intro("x0"), dataset(("_:b", "ex:p3", "_:x0")), input("_:x0"), graph(Some("ex:g1")))]
	Qux(String),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T55".into()), input: Some(vec!["self".into(), "b".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![("Qux".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::Iri("https://ex.org/g1".into()))), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T55, 2),
	},
	Entry {
		name: "T56",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t56p1", "_:v")), record, intro("v"))]
pub struct T56 {

}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T56".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t56p1".into()), Pat::var("v"), None)], ..Header::default() }, vec![]),
		ops: ops!(T56, 1),
	},
	Entry {
		name: "T57",
		inputs: 2,
		deps: &["T56", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record, input("b", "self"))]
pub struct T57 {
	#[tldr("ex:p0")]
	pub d: T56,
	#[tldr(dataset(("_:self", "ex:t57p2", "_:value")))]
	pub c: Option<u64>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T57".into()), input: Some(vec!["b".into(), "self".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T56".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p0".into())), required: true }), ("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t57p2".into()), Pat::var("value"), None)], property: None, required: false })]),
		ops: ops!(T57, 2),
	},
	Entry {
		name: "T58",
		inputs: 1,
		deps: &["T44"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v"))]
#[tldr(dataset(("_:self", "ex:p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
pub struct T58 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t58p2", "_:x0"), ("_:v", "ex:t58p3", "_:x1")), input("_:x0", "_:x1"))]
	pub c: Option<T44>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T58".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![("c".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T44".into()), Some(vec![Pat::var("x0"), Pat::var("x1")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t58p2".into()), Pat::var("x0"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t58p3".into()), Pat::var("x1"), None)], property: None, required: false })]),
		ops: ops!(T58, 1),
	},
	Entry {
		name: "T59",
		inputs: 2,
		deps: &["String", "T54"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("self", "b"))]
pub struct T59 {
	#[tldr("ex:p4")]
	pub b: T54,
	#[tldr(dataset(("_:self", "ex:t59p2", "_:value")), input("_:value"), graph(None))]
	pub a: Option<String>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T59".into()), input: Some(vec!["self".into(), "b".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T54".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p4".into())), required: true }), ("a".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("value")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t59p2".into()), Pat::var("value"), None)], property: None, required: false })]),
		ops: ops!(T59, 2),
	},
	Entry {
		name: "T60",
		inputs: 1,
		deps: &["T51"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:p2", "_:v"), ("_:self", "ex:t60p2", "_:w")), intro("v", "w"), list)]
pub struct T60( pub Vec<T51>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T60".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t60p2".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T51".into()), None, GraphA::Keep), dataset: None }), None, None),
		ops: ops!(T60, 1),
	},
	Entry {
		name: "T61",
		inputs: 1,
		deps: &["T55", "i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T61 {
	#[tldr(intro("x0", "x1", "y", "self"), dataset(("_:x0", "ex:t61p1", "_:x0", "ex:g1"), ("_:x1", "ex:t61p2", "_:x1"), ("_:x1", "ex:t61p3", "_:y"), ("_:x0", "ex:p0", "_:self")), input("_:x1", "_:self"))]
	pub b: Option<T55>,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t61p5", "_:x0")), input("_:x0"), graph(None))]
	pub a: Option<i8>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T61".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, vec![("b".into(), Comp { intro: Some(vec!["x0".into(), "x1".into(), "y".into(), "self".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T55".into()), Some(vec![Pat::var("x1"), Pat::var("self")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t61p1".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("x1"), Pat::Iri("https://ex.org/t61p2".into()), Pat::var("x1"), None), QuadP(Pat::var("x1"), Pat::Iri("https://ex.org/t61p3".into()), Pat::var("y"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/p0".into()), Pat::var("self"), None)], property: None, required: false }), ("a".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("x0")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t61p5".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T61, 1),
	},
	Entry {
		name: "T62",
		inputs: 1,
		deps: &["T50", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record, dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")))]
pub struct T62 {
	#[tldr("ex:p2")]
	pub c: u64,
	#[tldr(dataset(("_:self", "ex:t62p2", "_:value")))]
	pub b: T50,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T62".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None)], ..Header::default() }, vec![("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p2".into())), required: true }), ("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T50".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t62p2".into()), Pat::var("value"), None)], property: None, required: true })]),
		ops: ops!(T62, 1),
	},
	Entry {
		name: "T63",
		inputs: 1,
		deps: &["T49", "T55", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:self", "ex:p2", "_:self")))]
pub enum T63 {
	#[tldr(graph(Some("ex:g0")))]
	Bar(u8),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t63p2", "_:x0"), ("_:self", "_:x0", "_:y")), input("_:x0"))]
	Baz(T49),
	#[tldr(intro("x0", "x1", "gv"), dataset(("_:self", "_:self", "_:x0", "_:gv"), ("_:x0", "ex:p1", "_:x1")), input("_:x1", "_:x0"), graph(Some("_:gv")))]
	Foo(T55),
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:p0", "_:x0"), ("_:self", "ex:p2", "_:y")), input("_:x0"), graph(_))]
	Qux(u8),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T63".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("self"), None)], ..Header::default() }, vec![("Bar".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T49".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t63p2".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::var("x0"), Pat::var("y"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into(), "x1".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T55".into()), Some(vec![Pat::var("x1"), Pat::var("x0")]), GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x1"), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("y"), None)], property: None, required: false })]),
		ops: ops!(T63, 1),
	},
	Entry {
		name: "T64",
		inputs: 1,
		deps: &["i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:a"), input("a"), list)]
pub struct T64(#[tldr(head("head"), rest("next"), intro("x0", "y", "gv"), dataset(("_:next", "ex:p3", "_:x0", "_:gv"), ("_:x0", "ex:t64p2", "_:y", "ex:g0"), ("_:head", "ex:next", "_:next")), input("_:y"), graph(Some("_:gv")))] pub Vec<i8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T64".into()), input: Some(vec!["a".into()]), intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: Some("head".into()), rest: Some("next".into()), intro: Some(vec!["x0".into(), "y".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("y")]), GraphA::Pat(Pat::var("gv"))), dataset: Some(vec![QuadP(Pat::var("next"), Pat::Iri("https://ex.org/p3".into()), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t64p2".into()), Pat::var("y"), Some(Pat::Iri("https://ex.org/g0".into()))), QuadP(Pat::var("head"), Pat::Iri("https://ex.org/next".into()), Pat::var("next"), None)]) }), Some(Pat::var("a")), None),
		ops: ops!(T64, 1),
	},
	Entry {
		name: "T65",
		inputs: 1,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"), dataset(("_:self", "ex:t65p1", "_:v"), ("_:v", "ex:t65p2", "_:w")))]
#[tldr(tail("_:v"), list)]
pub struct T65(#[tldr(rest("rest"), dataset(("_:rest", "ex:t65p3", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")))] pub Vec<String>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T65".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t65p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t65p2".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: Some("rest".into()), intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("rest"), Pat::Iri("https://ex.org/t65p3".into()), Pat::var("value"), None), QuadP(Pat::var("head"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into()), Pat::var("rest"), None)]) }), None, Some(Pat::var("v"))),
		ops: ops!(T65, 1),
	},
	Entry {
		name: "T66",
		inputs: 1,
		deps: &["T52", "T64", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:v", "ex:p3", "_:self"), ("_:v", "ex:t66p3", "_:w"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(intro("v", "w"))]
pub enum T66 {
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:p2", "_:x0", "ex:g0"), ("_:v", "ex:t66p5", "_:x1")), input("_:x1", "_:x0"))]
	Qux(T52),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V3")))]
	Foo(u64),
	#[tldr(intro("x0"), dataset(("_:v", "ex:p0", "_:x0")), input("_:x0"))]
	Bar(T64),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V0")), graph(Some("ex:g0")))]
	Baz(T64),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T66".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/p3".into()), Pat::var("self"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t66p3".into()), Pat::var("w"), None), QuadP(Pat::var("w"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T64".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T64".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/V0".into()), None)], property: None, required: false }), ("Foo".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/V3".into()), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T52".into()), Some(vec![Pat::var("x1"), Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g0".into()))), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t66p5".into()), Pat::var("x1"), None)], property: None, required: false })]),
		ops: ops!(T66, 1),
	},
	Entry {
		name: "T67",
		inputs: 1,
		deps: &["T55"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:self", "ex:t67p1", "_:w")))]
pub struct T67 {
	#[tldr(intro("x0", "x1"), dataset(("_:w", "ex:t67p2", "_:x0"), ("_:self", "_:x0", "_:x1")), input("_:x0", "_:x1"))]
	pub c: Option<T55>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T67".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t67p1".into()), Pat::var("w"), None)], ..Header::default() }, vec![("c".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T55".into()), Some(vec![Pat::var("x0"), Pat::var("x1")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t67p2".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::var("x0"), Pat::var("x1"), None)], property: None, required: false })]),
		ops: ops!(T67, 1),
	},
	Entry {
		name: "T68",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("b", "self"), datatype("ex:D"), string, resource("_:self"))]
pub struct T68(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T68".into()), input: Some(vec!["b".into(), "self".into()]), intro: vec![], dataset: vec![], ..Header::default() }, Some(Pat::var("self")), Some("https://ex.org/D".into()), None),
		ops: ops!(T68, 2),
	},
	Entry {
		name: "T69",
		inputs: 1,
		deps: &["T56"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("w"), dataset(("_:self", "_:self", "_:w", "ex:g0")), set)]
pub struct T69(#[tldr("ex:p4")] pub Vec<T56>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/T69".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("w"), Some(Pat::Iri("https://ex.org/g0".into())))], ..Header::default() }, Box::new(Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T56".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p4".into())), required: false })),
		ops: ops!(T69, 1),
	},
	Entry {
		name: "T70",
		inputs: 2,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(unit, input("b", "self"))]
pub struct T70;"#,
		lay: || Lay::Unit(Header { id: Some("https://ex.org/T70".into()), input: Some(vec!["b".into(), "self".into()]), intro: vec![], dataset: vec![], ..Header::default() }, None),
		ops: ops!(T70, 2),
	},
	Entry {
		name: "T71",
		inputs: 1,
		deps: &["T64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:v"), list, dataset(("_:self", "ex:t71p1", "_:v", "ex:g0")), intro("v"))]
pub struct T71(#[tldr(head("head"), rest("m"), dataset(("_:head", "ex:t71p2", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:m")), graph(_))] pub Vec<T64>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T71".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t71p1".into()), Pat::var("v"), Some(Pat::Iri("https://ex.org/g0".into())))], ..Header::default() }, Box::new(Node::Node { head: Some("head".into()), rest: Some("m".into()), intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T64".into()), None, GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("head"), Pat::Iri("https://ex.org/t71p2".into()), Pat::var("value"), None), QuadP(Pat::var("head"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into()), Pat::var("m"), None)]) }), Some(Pat::var("v")), None),
		ops: ops!(T71, 1),
	},
	Entry {
		name: "T72",
		inputs: 1,
		deps: &["i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(record)]
pub struct T72 {
	#[tldr(dataset(("_:self", "ex:p0", "_:value", "ex:g1"), ("_:value", "ex:t72p2", "_:value")), input("_:value"), graph(Some("ex:g0")))]
	pub c: Option<i32>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T72".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("c".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("value")]), GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("value"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("value"), Pat::Iri("https://ex.org/t72p2".into()), Pat::var("value"), None)], property: None, required: false })]),
		ops: ops!(T72, 1),
	},
	Entry {
		name: "T73",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes, dataset(("_:self", "ex:t73p1", "_:v")), resource("_:v"), intro("v"), datatype("xsd:hexBinary"))]
pub struct T73(pub Hex);"#,
		lay: || Lay::Bytes(Header { id: Some("https://ex.org/T73".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t73p1".into()), Pat::var("v"), None)], ..Header::default() }, Some(Pat::var("v")), "http://www.w3.org/2001/XMLSchema#hexBinary".into()),
		ops: ops!(T73, 1),
	},
	Entry {
		name: "T74",
		inputs: 1,
		deps: &["T64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set, dataset(("_:self", "ex:t74p1", "_:v"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), intro("v"))]
pub struct T74(#[tldr(intro("x0", "v"), dataset(("_:self", "ex:t74p2", "_:x0"), ("_:x0", "ex:t74p3", "_:v")), input("_:x0"))] pub Vec<T64>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/T74".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t74p1".into()), Pat::var("v"), None), QuadP(Pat::var("v"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, Box::new(Comp { intro: Some(vec!["x0".into(), "v".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T64".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t74p2".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t74p3".into()), Pat::var("v"), None)], property: None, required: false })),
		ops: ops!(T74, 1),
	},
	Entry {
		name: "T75",
		inputs: 1,
		deps: &["T62"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set)]
pub struct T75(#[tldr("ex:t75p1", graph(Some("ex:g0")))] pub Vec<T62>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/T75".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T62".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t75p1".into())), required: false })),
		ops: ops!(T75, 1),
	},
	Entry {
		name: "T76",
		inputs: 1,
		deps: &["u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")), set)]
pub struct T76(#[tldr(intro("x0", "gv"), dataset(("_:self", "ex:p1", "_:x0", "_:gv")), input("_:x0"))] pub Vec<u8>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/T76".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, Box::new(Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x0"), Some(Pat::var("gv")))], property: None, required: false })),
		ops: ops!(T76, 1),
	},
	Entry {
		name: "T77",
		inputs: 1,
		deps: &["u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2")), tuple)]
pub struct T77(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p1", "_:x0", "ex:g0")), input("_:x0"))]
	pub u8,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T77".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None)], ..Header::default() }, vec![Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false }]),
		ops: ops!(T77, 1),
	},
	Entry {
		name: "T78",
		inputs: 1,
		deps: &["T75", "i32", "i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub enum T78 {
	#[tldr(intro("x0"), dataset(("_:self", "ex:p2", "_:x0")), input("_:x0"))]
	Qux(i32),
	#[tldr(intro("x0"), dataset(("_:self", "ex:p4", "_:x0")), input("_:x0"))]
	Baz(T75),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t78p3", "_:x0")), input("_:x0"))]
	Foo(i8),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T78".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("Baz".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T75".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p4".into()), Pat::var("x0"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t78p3".into()), Pat::var("x0"), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T78, 1),
	},
	Entry {
		name: "T79",
		inputs: 1,
		deps: &["T68", "i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T79 {
	#[tldr(intro("x0", "x1", "y", "self", "gv"), dataset(("_:x1", "ex:t79p1", "_:x0", "_:gv"), ("_:y", "_:self", "_:x1"), ("_:x1", "_:self", "_:y"), ("_:x1", "ex:t79p4", "_:self", "ex:g0")), input("_:y", "_:x0"))]
	pub c: Option<T68>,
	#[tldr(dataset(("_:self", "ex:t79p5", "_:value")), graph(_))]
	pub d: Option<i32>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T79".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("c".into(), Comp { intro: Some(vec!["x0".into(), "x1".into(), "y".into(), "self".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T68".into()), Some(vec![Pat::var("y"), Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("x1"), Pat::Iri("https://ex.org/t79p1".into()), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("y"), Pat::var("self"), Pat::var("x1"), None), QuadP(Pat::var("x1"), Pat::var("self"), Pat::var("y"), None), QuadP(Pat::var("x1"), Pat::Iri("https://ex.org/t79p4".into()), Pat::var("self"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false }), ("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t79p5".into()), Pat::var("value"), None)], property: None, required: false })]),
		ops: ops!(T79, 1),
	},
	Entry {
		name: "T80",
		inputs: 2,
		deps: &["T75", "i8", "u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a", "b"))]
pub enum T80 {
	#[tldr(intro("x0", "a"), dataset(("_:b", "ex:t80p1", "_:x0"), ("_:x0", "_:x0", "_:a")), input("_:x0"))]
	Qux(i8),
	#[tldr(intro("x0", "gv"), dataset(("_:a", "ex:p0", "_:x0", "_:gv")), input("_:x0"), graph(Some("_:gv")))]
	Baz(T75),
	#[tldr(intro("x0"), dataset(("_:a", "ex:t80p4", "_:x0")), input("_:x0"))]
	Bar(u64),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T80".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec![], dataset: vec![], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t80p4".into()), Pat::var("x0"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T75".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), Some(Pat::var("gv")))], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "a".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/t80p1".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::var("x0"), Pat::var("a"), None)], property: None, required: false })]),
		ops: ops!(T80, 2),
	},
	Entry {
		name: "T81",
		inputs: 2,
		deps: &["String", "i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:b", "_:a", "_:v", "ex:g1")), input("a", "b"), intro("v"))]
pub struct T81 {
	#[tldr(intro("x0", "gv"), dataset(("_:a", "ex:t81p2", "_:x0", "_:gv")), input("_:x0"))]
	pub c: Option<i32>,
	#[tldr(intro("x0"), dataset(("_:a", "ex:t81p3", "_:x0")), input("_:x0"))]
	pub b: String,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T81".into()), input: Some(vec!["a".into(), "b".into()]), intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("b"), Pat::var("a"), Pat::var("v"), Some(Pat::Iri("https://ex.org/g1".into())))], ..Header::default() }, vec![("c".into(), Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t81p2".into()), Pat::var("x0"), Some(Pat::var("gv")))], property: None, required: false }), ("b".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t81p3".into()), Pat::var("x0"), None)], property: None, required: true })]),
		ops: ops!(T81, 2),
	},
	Entry {
		name: "T82",
		inputs: 1,
		deps: &["T80"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v"), dataset(("_:self", "_:self", "_:v", "ex:g0"), ("_:v", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub enum T82 {
	#[tldr(intro("x0", "x1"), dataset(("_:v", "ex:t82p2", "_:x0"), ("_:v", "ex:t82p3", "_:v"), ("_:x0", "ex:t82p4", "_:x1")), input("_:x1", "_:x0"))]
	Foo(T80),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T82".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::var("self"), Pat::var("v"), Some(Pat::Iri("https://ex.org/g0".into()))), QuadP(Pat::var("v"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, vec![("Foo".into(), Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T80".into()), Some(vec![Pat::var("x1"), Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t82p2".into()), Pat::var("x0"), None), QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t82p3".into()), Pat::var("v"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/t82p4".into()), Pat::var("x1"), None)], property: None, required: false })]),
		ops: ops!(T82, 1),
	},
	Entry {
		name: "T83",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(input("a"), datatype("xsd:integer"), resource("_:a"), intro("v", "w"), number)]
#[tldr(dataset(("_:a", "ex:t83p1", "_:v"), ("_:a", "ex:t83p2", "_:w")))]
pub struct T83(pub i64);"#,
		lay: || Lay::Number(Header { id: Some("https://ex.org/T83".into()), input: Some(vec!["a".into()]), intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t83p1".into()), Pat::var("v"), None), QuadP(Pat::var("a"), Pat::Iri("https://ex.org/t83p2".into()), Pat::var("w"), None)], ..Header::default() }, Some(Pat::var("a")), "http://www.w3.org/2001/XMLSchema#integer".into()),
		ops: ops!(T83, 1),
	},
	Entry {
		name: "T84",
		inputs: 1,
		deps: &["T80", "T82"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T84(
	#[tldr(intro("x0"), dataset(("_:self", "ex:p0", "_:x0")), input("_:x0"))]
	pub T82,
	#[tldr(intro("x0", "x1"), dataset(("_:self", "ex:t84p2", "_:x0"), ("_:self", "ex:t84p3", "_:x1")), input("_:x0", "_:x1"))]
	pub T80,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T84".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, vec![Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T82".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), None)], property: None, required: false }, Comp { intro: Some(vec!["x0".into(), "x1".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T80".into()), Some(vec![Pat::var("x0"), Pat::var("x1")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t84p2".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t84p3".into()), Pat::var("x1"), None)], property: None, required: false }]),
		ops: ops!(T84, 1),
	},
	Entry {
		name: "T85",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(datatype("ex:D"), string, dataset(("_:self", "ex:p1", "_:v")))]
#[tldr(intro("v"))]
pub struct T85(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T85".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("v"), None)], ..Header::default() }, None, Some("https://ex.org/D".into()), None),
		ops: ops!(T85, 1),
	},
	Entry {
		name: "T86",
		inputs: 1,
		deps: &["T75"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:self"), list, intro("v", "w"))]
#[tldr(dataset(("_:self", "ex:t86p1", "_:v"), ("_:self", "ex:p3", "_:w", "ex:g1"), ("_:w", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T2"), ("_:w", "ex:p0", "_:w")))]
pub struct T86(#[tldr(head("head"), intro("x0", "y"), dataset(("_:head", "_:rest", "_:x0"), ("_:head", "ex:p0", "_:y", "ex:g1"), ("_:head", "ex:next", "_:rest")), input("_:y"))] pub Vec<T75>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T86".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t86p1".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p3".into()), Pat::var("w"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("w"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T2".into()), None), QuadP(Pat::var("w"), Pat::Iri("https://ex.org/p0".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: Some("head".into()), rest: None, intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T75".into()), Some(vec![Pat::var("y")]), GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("head"), Pat::var("rest"), Pat::var("x0"), None), QuadP(Pat::var("head"), Pat::Iri("https://ex.org/p0".into()), Pat::var("y"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("head"), Pat::Iri("https://ex.org/next".into()), Pat::var("rest"), None)]) }), Some(Pat::var("self")), None),
		ops: ops!(T86, 1),
	},
	Entry {
		name: "T87",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(intro("v", "w"))]
#[tldr(string, dataset(("_:self", "ex:t87p1", "_:v"), ("_:self", "ex:p1", "_:w", "ex:g1")), resource("_:w"))]
pub struct T87(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T87".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t87p1".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p1".into()), Pat::var("w"), Some(Pat::Iri("https://ex.org/g1".into())))], ..Header::default() }, Some(Pat::var("w")), None, None),
		ops: ops!(T87, 1),
	},
	Entry {
		name: "T88",
		inputs: 1,
		deps: &["T75", "T78", "i64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T88 {
	#[tldr("ex:t88p1")]
	pub d: Option<T75>,
	#[tldr("ex:p2")]
	pub b: i64,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t88p3", "_:x0")), input("_:x0"))]
	pub c: Option<T78>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T88".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("d".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T75".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t88p1".into())), required: false }), ("b".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i64".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p2".into())), required: true }), ("c".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T78".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t88p3".into()), Pat::var("x0"), None)], property: None, required: false })]),
		ops: ops!(T88, 1),
	},
	Entry {
		name: "T89",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(datatype("ex:D"), resource("_:w"), string, dataset(("_:self", "ex:t89p1", "_:v"), ("_:self", "ex:t89p2", "_:w")))]
#[tldr(intro("v", "w"))]
pub struct T89(pub String);"#,
		lay: || Lay::Str(Header { id: Some("https://ex.org/T89".into()), input: None, intro: vec!["v".into(), "w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t89p1".into()), Pat::var("v"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t89p2".into()), Pat::var("w"), None)], ..Header::default() }, Some(Pat::var("w")), Some("https://ex.org/D".into()), None),
		ops: ops!(T89, 1),
	},
	Entry {
		name: "T90",
		inputs: 1,
		deps: &["i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, head("_:self"), dataset(("_:self", "ex:t90p1", "_:w")), intro("w"))]
pub struct T90( pub Vec<i32>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T90".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t90p1".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Keep), dataset: None }), Some(Pat::var("self")), None),
		ops: ops!(T90, 1),
	},
	Entry {
		name: "T91",
		inputs: 1,
		deps: &["String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t91p1", "_:w")), intro("w"), set)]
pub struct T91(#[tldr("ex:p2")] pub Vec<String>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/T91".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t91p1".into()), Pat::var("w"), None)], ..Header::default() }, Box::new(Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p2".into())), required: false })),
		ops: ops!(T91, 1),
	},
	Entry {
		name: "T92",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(bytes)]
#[tldr(intro("v"), resource("_:v"), datatype("xsd:hexBinary"), dataset(("_:v", "ex:t92p2", "_:self"), ("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T1")))]
pub struct T92(pub Hex);"#,
		lay: || Lay::Bytes(Header { id: Some("https://ex.org/T92".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("v"), Pat::Iri("https://ex.org/t92p2".into()), Pat::var("self"), None), QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T1".into()), None)], ..Header::default() }, Some(Pat::var("v")), "http://www.w3.org/2001/XMLSchema#hexBinary".into()),
		ops: ops!(T92, 1),
	},
	Entry {
		name: "T93",
		inputs: 1,
		deps: &["i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T93( pub Vec<i8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T93".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), None, GraphA::Keep), dataset: None }), None, None),
		ops: ops!(T93, 1),
	},
	Entry {
		name: "T94",
		inputs: 1,
		deps: &["T86", "T93"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t94p1", "_:w")))]
#[tldr(intro("w"))]
pub struct T94 {
	#[tldr("ex:t94p2")]
	pub a: Option<T93>,
	#[tldr(intro("x0"), dataset(("_:self", "ex:t94p3", "_:x0")), input("ex:n1"))]
	pub c: T86,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T94".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t94p1".into()), Pat::var("w"), None)], ..Header::default() }, vec![("a".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T93".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t94p2".into())), required: false }), ("c".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T86".into()), Some(vec![Pat::Iri("https://ex.org/n1".into())]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t94p3".into()), Pat::var("x0"), None)], property: None, required: true })]),
		ops: ops!(T94, 1),
	},
	Entry {
		name: "T95",
		inputs: 1,
		deps: &["T90", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:T0")))]
#[tldr(tuple)]
pub struct T95(
	#[tldr(dataset(("_:self", "ex:t95p1", "_:value")), input("_:value"), graph(None))]
	pub u8,
	#[tldr(dataset(("_:self", "ex:p2", "_:value")))]
	pub T90,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T95".into()), input: None, intro: vec![], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/T0".into()), None)], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("value")]), GraphA::Default), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t95p1".into()), Pat::var("value"), None)], property: None, required: false }, Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T90".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("value"), None)], property: None, required: false }]),
		ops: ops!(T95, 1),
	},
	Entry {
		name: "T96",
		inputs: 1,
		deps: &["i64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T96( pub Vec<i64>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T96".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i64".into()), None, GraphA::Keep), dataset: None }), None, None),
		ops: ops!(T96, 1),
	},
	Entry {
		name: "T97",
		inputs: 1,
		deps: &["T94"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list)]
pub struct T97(#[tldr(graph(Some("ex:g0")))] pub Vec<T94>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T97".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T94".into()), None, GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: None }), None, None),
		ops: ops!(T97, 1),
	},
	Entry {
		name: "T98",
		inputs: 1,
		deps: &[],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t98p1", "_:w", "ex:g1")), intro("w"))]
pub struct T98 {

}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/T98".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t98p1".into()), Pat::var("w"), Some(Pat::Iri("https://ex.org/g1".into())))], ..Header::default() }, vec![]),
		ops: ops!(T98, 1),
	},
	Entry {
		name: "T99",
		inputs: 1,
		deps: &["u64"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(list, tail("_:v"), dataset(("_:self", "ex:t99p1", "_:v")), intro("v"))]
pub struct T99(#[tldr(graph(None))] pub Vec<u64>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T99".into()), input: None, intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t99p1".into()), Pat::var("v"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u64".into()), None, GraphA::Default), dataset: None }), None, Some(Pat::var("v"))),
		ops: ops!(T99, 1),
	},
	Entry {
		name: "T100",
		inputs: 2,
		deps: &["String", "i32", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "_:b", "_:w")), intro("w"), input("b", "self"))]
pub enum T100 {
	#[tldr(intro("x0", "w"), dataset(("_:b", "ex:t100p2", "_:x0"), ("_:self", "ex:p2", "_:self"), ("_:x0", "_:self", "_:w", "ex:g0")), input("_:w"))]
	Foo(String),
	#[tldr(intro("x0", "gv"), dataset(("_:b", "ex:p0", "_:x0", "_:gv"), ("_:x0", "ex:p4", "_:x0")), input("_:x0"), graph(Some("_:gv")))]
	Baz(String),
	#[tldr(intro("x0", "w"), dataset(("_:b", "ex:p2", "_:x0"), ("_:self", "ex:p4", "_:w")), input("_:x0"))]
	Qux(i32),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t100p9", "_:x0")), input("_:x0"))]
	Bar(u8),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T100".into()), input: Some(vec!["b".into(), "self".into()]), intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::var("b"), Pat::var("w"), None)], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t100p9".into()), Pat::var("x0"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "gv".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::var("gv"))), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p0".into()), Pat::var("x0"), Some(Pat::var("gv"))), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/p4".into()), Pat::var("x0"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: Some(vec!["x0".into(), "w".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("w")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/t100p2".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p2".into()), Pat::var("self"), None), QuadP(Pat::var("x0"), Pat::var("self"), Pat::var("w"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into(), "w".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("b"), Pat::Iri("https://ex.org/p2".into()), Pat::var("x0"), None), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/p4".into()), Pat::var("w"), None)], property: None, required: false })]),
		ops: ops!(T100, 2),
	},
	Entry {
		name: "T101",
		inputs: 1,
		deps: &["i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(head("_:v"), intro("v"), input("a"), dataset(("_:a", "ex:p3", "_:v")), list, tail("_:a"))]
pub struct T101(#[tldr(dataset(("_:head", "ex:p0", "_:value"), ("_:head", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:rest")), input("_:value"))] pub Vec<i8>);"#,
		lay: || Lay::List(Header { id: Some("https://ex.org/T101".into()), input: Some(vec!["a".into()]), intro: vec!["v".into()], dataset: vec![QuadP(Pat::var("a"), Pat::Iri("https://ex.org/p3".into()), Pat::var("v"), None)], ..Header::default() }, Box::new(Node::Node { head: None, rest: None, intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("value")]), GraphA::Keep), dataset: Some(vec![QuadP(Pat::var("head"), Pat::Iri("https://ex.org/p0".into()), Pat::var("value"), None), QuadP(Pat::var("head"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into()), Pat::var("rest"), None)]) }), Some(Pat::var("v")), Some(Pat::var("a"))),
		ops: ops!(T101, 1),
	},
	Entry {
		name: "T102",
		inputs: 1,
		deps: &["T91"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T102(
	#[tldr(intro("x0"), dataset(("_:self", "ex:t102p1", "_:x0", "ex:g1"), ("_:self", "ex:t102p2", "_:self")), input("_:x0"))]
	pub T91,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T102".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T91".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t102p1".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g1".into()))), QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t102p2".into()), Pat::var("self"), None)], property: None, required: false }]),
		ops: ops!(T102, 1),
	},
	Entry {
		name: "T103",
		inputs: 1,
		deps: &["String", "T89", "T98", "i8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(dataset(("_:self", "ex:t103p1", "_:w")))]
#[tldr(intro("w"))]
pub enum T103 {
	#[tldr(intro("x0", "y"), dataset(("_:self", "ex:t103p2", "_:x0"), ("_:w", "ex:t103p3", "_:y")), input("_:x0"), graph(Some("ex:g0")))]
	Bar(i8),
	#[tldr(intro("x0", "y"), dataset(("_:w", "ex:t103p4", "_:x0"), ("_:x0", "ex:p0", "_:y")), input("_:x0"))]
	Baz(String),
	#[tldr(dataset(("_:self", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "ex:V2")))]
	Foo(T89),
	#[tldr(intro("x0"), dataset(("_:self", "ex:t103p6", "_:x0", "ex:g0")), input("_:x0"))]
	Qux(T98),
}"#,
		lay: || Lay::Sum(Header { id: Some("https://ex.org/T103".into()), input: None, intro: vec!["w".into()], dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t103p1".into()), Pat::var("w"), None)], ..Header::default() }, vec![("Bar".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/i8".into()), Some(vec![Pat::var("x0")]), GraphA::Pat(Pat::Iri("https://ex.org/g0".into()))), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t103p2".into()), Pat::var("x0"), None), QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t103p3".into()), Pat::var("y"), None)], property: None, required: false }), ("Baz".into(), Comp { intro: Some(vec!["x0".into(), "y".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("w"), Pat::Iri("https://ex.org/t103p4".into()), Pat::var("x0"), None), QuadP(Pat::var("x0"), Pat::Iri("https://ex.org/p0".into()), Pat::var("y"), None)], property: None, required: false }), ("Foo".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/T89".into()), None, GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into()), Pat::Iri("https://ex.org/V2".into()), None)], property: None, required: false }), ("Qux".into(), Comp { intro: Some(vec!["x0".into()]), fmt: Fmt::Format(LRef::Ref("https://ex.org/T98".into()), Some(vec![Pat::var("x0")]), GraphA::Keep), dataset: vec![QuadP(Pat::var("self"), Pat::Iri("https://ex.org/t103p6".into()), Pat::var("x0"), Some(Pat::Iri("https://ex.org/g0".into())))], property: None, required: false })]),
		ops: ops!(T103, 1),
	},
	Entry {
		name: "T104",
		inputs: 1,
		deps: &["i64", "u8"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct T104(
	#[tldr("ex:t104p1")]
	pub u8,
	#[tldr("ex:t104p2")]
	pub i64,
);"#,
		lay: || Lay::Tuple(Header { id: Some("https://ex.org/T104".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/u8".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t104p1".into())), required: false }, Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i64".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/t104p2".into())), required: false }]),
		ops: ops!(T104, 1),
	},
	Entry {
		name: "Tree",
		inputs: 1,
		deps: &["Forest", "String"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct Tree {
	#[tldr("ex:label")]
	pub label: Option<String>,
	#[tldr(input("_:self"))]
	pub children: Forest,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/Tree".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("label".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/label".into())), required: false }), ("children".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/Forest".into()), Some(vec![Pat::var("self")]), GraphA::Keep), dataset: vec![], property: None, required: true })]),
		ops: ops!(Tree, 1),
	},
	Entry {
		name: "Forest",
		inputs: 1,
		deps: &["Tree"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
#[tldr(set)]
pub struct Forest(#[tldr("ex:child")] pub Vec<Tree>);"#,
		lay: || Lay::Set(Header { id: Some("https://ex.org/Forest".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, Box::new(Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/Tree".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/child".into())), required: false })),
		ops: ops!(Forest, 1),
	},
	Entry {
		name: "Raw",
		inputs: 1,
		deps: &["String", "i32"],
		decl: r#"#[tldr(prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"))]
pub struct Raw {
	#[tldr("ex:p1")]
	pub r#type: String,
	#[tldr("ex:p2")]
	pub r#loop: Option<i32>,
}"#,
		lay: || Lay::Record(Header { id: Some("https://ex.org/Raw".into()), input: None, intro: vec![], dataset: vec![], ..Header::default() }, vec![("type".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/String".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p1".into())), required: true }), ("loop".into(), Comp { intro: None, fmt: Fmt::Format(LRef::Ref("https://ex.org/i32".into()), None, GraphA::Keep), dataset: vec![], property: Some(Pat::Iri("https://ex.org/p2".into())), required: false })]),
		ops: ops!(Raw, 1),
	},
];
