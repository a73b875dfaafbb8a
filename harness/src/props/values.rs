//! Conversions of tree values to and from JSON, serde and CBOR.
use super::distill::{data, describe, scene_of, value_size};
use crate::ast::Extra;
use crate::gen::*;
use crate::json::J;
use crate::real::*;
use crate::refc::*;
use crate::rng::Rng;
use crate::runner::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, ToPrimitive, Zero};
use rdf_types::Term;
use serde_cbor::Value as Cbor;
use std::collections::BTreeMap;
use json_syntax::Parse;
use treeldr_layouts as tl;
use treeldr_layouts::value::{cbor::InvalidTag, NativeNumber, NonJsonValue, Number};
use treeldr_layouts::{Literal, TypedLiteral, TypedValue, Value};

pub static PROPS: &[Prop] = &[
	Prop {
		id: "P11",
		rule: "random JSON documents (numbers with any lexical form, nested, unusual strings and keys) converted to values and back with both JSON libraries, random values outside JSON, random native numbers, serde round trips; non trivial: at least 3 nodes or a number; distinct by document or value",
		quick: 100_000,
		thorough: 6_000_000,
		hang: 60,
		threads: 8,
		run: p11,
	},
	Prop {
		id: "P12",
		rule: "hydrated values of random layouts with CBOR tags (valid, invalid, of various datatypes), random values and integers around the limits, encoded as CBOR; non trivial: a tag, a bignum or at least 3 nodes; distinct by (layouts, dataset) or value",
		quick: 60_000,
		thorough: 3_000_000,
		hang: 60,
		threads: 8,
		run: p12,
	},
];

fn digits(rng: &mut Rng, n: usize) -> String {
	(0..n).map(|_| char::from(b'0' + rng.below(10) as u8)).collect()
}

fn natural(rng: &mut Rng) -> String {
	let n = *rng.pick(&[1, 1, 1, 2, 3, 10, 19, 20, 21, 40]);
	match rng.below(8) {
		0 => "0".into(),
		1 => rng
			.pick(&[
				"9223372036854775807",
				"9223372036854775808",
				"18446744073709551615",
				"18446744073709551616",
				"4294967296",
				"9007199254740993",
			])
			.to_string(),
		_ => {
			let d = digits(rng, n);
			let d = d.trim_start_matches('0');
			if d.is_empty() {
				"0".into()
			} else {
				d.into()
			}
		}
	}
}

fn json_number(rng: &mut Rng) -> String {
	let mut s = String::new();
	if rng.pct(40) {
		s.push('-')
	}
	s.push_str(&natural(rng));
	if rng.pct(45) {
		s.push('.');
		let n = *rng.pick(&[1, 1, 2, 3, 7, 16, 30]);
		let d = digits(rng, n);
		s.push_str(&d);
	}
	if rng.pct(30) {
		s.push(if rng.pct(50) { 'e' } else { 'E' });
		s.push_str(*rng.pick(&["", "+", "-"]));
		s.push_str(*rng.pick(&["0", "1", "2", "5", "07", "20", "40"]));
	}
	s
}

const STRINGS: &[&str] = &[
	"", "a", "é", "a\"b", "\\", "\n\t\u{1}", "\u{10ffff}", "null", "1", "x y", "$serde", "@id", "\u{e000}",
];

pub fn json(rng: &mut Rng, depth: usize) -> J {
	match rng.below(if depth == 0 { 5 } else { 9 }) {
		0 => J::Null,
		1 => J::Bool(rng.pct(50)),
		2 | 3 => J::Num(json_number(rng)),
		4 => J::str(*rng.pick(STRINGS)),
		5 | 6 => {
			let n = rng.below(4);
			J::Arr((0..n).map(|_| json(rng, depth - 1)).collect())
		}
		_ => {
			let mut o: Vec<(String, J)> = Vec::new();
			for _ in 0..rng.below(4) {
				let k = rng.pick(STRINGS).to_string();
				if o.iter().all(|(l, _)| *l != k) {
					let v = json(rng, depth - 1);
					o.push((k, v))
				}
			}
			J::Obj(o)
		}
	}
}

fn from_serde(v: &serde_json::Value) -> J {
	match v {
		serde_json::Value::Null => J::Null,
		serde_json::Value::Bool(b) => J::Bool(*b),
		serde_json::Value::Number(n) => J::Num(n.to_string()),
		serde_json::Value::String(s) => J::Str(s.clone()),
		serde_json::Value::Array(a) => J::Arr(a.iter().map(from_serde).collect()),
		serde_json::Value::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), from_serde(v))).collect()),
	}
}

pub fn from_syntax(v: &json_syntax::Value) -> J {
	match v {
		json_syntax::Value::Null => J::Null,
		json_syntax::Value::Boolean(b) => J::Bool(*b),
		json_syntax::Value::Number(n) => J::Num(n.as_str().to_string()),
		json_syntax::Value::String(s) => J::Str(s.to_string()),
		json_syntax::Value::Array(a) => J::Arr(a.iter().map(from_syntax).collect()),
		json_syntax::Value::Object(o) => J::Obj(
			o.iter()
				.map(|e| (e.key.to_string(), from_syntax(&e.value)))
				.collect(),
		),
	}
}

fn has_empty_object(j: &J) -> bool {
	match j {
		J::Obj(o) => o.is_empty() || o.iter().any(|(_, v)| has_empty_object(v)),
		J::Arr(a) => a.iter().any(has_empty_object),
		_ => false,
	}
}

fn rational(rng: &mut Rng) -> BigRational {
	match rng.below(6) {
		0 => BigRational::new(BigInt::from(rng.below(200) as i64 - 100), BigInt::from(rng.range(1, 30) as i64)),
		1 => {
			let e = rng.range(0, 80);
			let n = BigInt::from(1) << e;
			let n = n + BigInt::from(rng.below(5) as i64 - 2);
			BigRational::from_integer(if rng.pct(50) { -n } else { n })
		}
		2 => {
			// exact binary fractions.
			BigRational::new(BigInt::from(rng.below(4000) as i64 - 2000), BigInt::from(1) << rng.range(0, 30))
		}
		_ => parse_decimal(&json_number(rng)).unwrap(),
	}
}

fn value(rng: &mut Rng, depth: usize, wild: u32) -> Value {
	match rng.below(if depth == 0 { 6 } else { 10 }) {
		0 => Value::unit(),
		1 => Value::Literal(Literal::Boolean(rng.pct(50))),
		2 | 3 => num(rational(rng)),
		4 => {
			if rng.pct(wild) {
				let n = rng.below(5);
				Value::Literal(Literal::ByteString((0..n).map(|_| rng.next() as u8).collect()))
			} else {
				text(*rng.pick(STRINGS))
			}
		}
		5 => text(*rng.pick(STRINGS)),
		6 | 7 => {
			let n = rng.below(4);
			Value::List((0..n).map(|_| value(rng, depth - 1, wild)).collect())
		}
		_ => {
			let mut m = BTreeMap::new();
			for _ in 0..rng.below(4) {
				let k = if rng.pct(wild / 2) {
					value(rng, 1, wild)
				} else {
					text(*rng.pick(STRINGS))
				};
				m.insert(k, value(rng, depth - 1, wild));
			}
			Value::Map(m)
		}
	}
}

fn is_decimal(n: &BigRational) -> bool {
	crate::refhy::in_value_space(n, &format!("{XSD}decimal")) == Some(true)
}

/// Why the value is not JSON.
pub fn non_json(v: &Value, out: &mut Vec<&'static str>) {
	match v {
		Value::Literal(Literal::Number(n)) => {
			if !is_decimal(n.as_big_rational()) {
				out.push("number")
			}
		}
		Value::Literal(Literal::ByteString(_)) => out.push("bytes"),
		Value::Literal(_) => (),
		Value::List(l) => l.iter().for_each(|v| non_json(v, out)),
		Value::Map(m) => {
			for (k, v) in m {
				if k.as_str().is_none() {
					out.push("key")
				}
				non_json(v, out)
			}
		}
	}
}

fn why(e: &NonJsonValue) -> &'static str {
	match e {
		NonJsonValue::Number(_) => "number",
		NonJsonValue::ByteString(_) => "bytes",
		NonJsonValue::NonStringKey(_) => "key",
	}
}

fn fits_native(n: &BigRational) -> bool {
	n.is_integer() && (n.to_integer().to_i64().is_some() || n.to_integer().to_u64().is_some())
}

fn float(f: f64) -> Option<BigRational> {
	// decoded by hand.
	if !f.is_finite() {
		return None;
	}
	let bits = f.to_bits();
	let sign = if bits >> 63 == 1 { -1 } else { 1 };
	let e = ((bits >> 52) & 0x7ff) as i64;
	let m = bits & ((1 << 52) - 1);
	let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
	let m = BigInt::from(m) * sign;
	Some(if e >= 0 {
		BigRational::from_integer(m << e as usize)
	} else {
		BigRational::new(m, BigInt::from(1) << (-e) as usize)
	})
}

/// Is `f` an approximation of `n`, with an error of a few units in the last
/// place?
fn approximates(f: f64, n: &BigRational) -> bool {
	match float(f) {
		Some(r) => {
			let error = (&r - n).abs();
			let scale = BigRational::new(BigInt::from(1), BigInt::from(1) << 50usize);
			error <= n.abs() * scale || (n.abs() < float(1e-300).unwrap() && f.abs() < 1e-299)
		}
		None => n.abs() > float(1.7e308).unwrap(),
	}
}

/// Compares a value read back with the original, where numbers may have been
/// rounded to double precision if they are not native integers.
pub fn same_rounded(a: &Value, b: &Value) -> bool {
	match (a, b) {
		(Value::Literal(Literal::Number(a)), Value::Literal(Literal::Number(b))) => {
			let (a, b) = (a.as_big_rational(), b.as_big_rational());
			if a == b {
				return true;
			}
			if fits_native(b) {
				return false;
			}
			let scale = BigRational::new(BigInt::from(1), BigInt::from(1) << 48usize);
			(a - b).abs() <= b.abs() * scale
		}
		(Value::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_rounded(a, b)),
		(Value::Map(a), Value::Map(b)) => {
			a.len() == b.len()
				&& a.iter()
					.all(|(k, v)| b.get(k).is_some_and(|w| same_rounded(v, w)))
		}
		(a, b) => a == b,
	}
}

fn huge(v: &Value) -> bool {
	match v {
		Value::Literal(Literal::Number(n)) => n.as_big_rational().abs() > float(1e300).unwrap(),
		Value::Literal(_) => false,
		Value::List(l) => l.iter().any(huge),
		Value::Map(m) => m.iter().any(|(k, v)| huge(k) || huge(v)),
	}
}

macro_rules! bad {
	($($t:tt)*) => { return Err(Bad::Violation(format!($($t)*))) }
}

fn check_number(n: &BigRational, cov: &mut Cov) -> Case {
	let real = Number::new(n.clone());
	cov.eval();
	if real.is_integer() != n.is_integer() {
		bad!("is_integer of {n}")
	}
	match (real.as_integer(), n.is_integer()) {
		(Some(i), true) if *i == n.to_integer() => (),
		(None, false) => (),
		(i, _) => bad!("as_integer of {n} is {i:?}"),
	}
	let d = guard("decimal_representation", || real.decimal_representation())?;
	match (&d, is_decimal(n)) {
		(None, false) => cov.hit("non decimal number"),
		(Some(d), true) => {
			let shape = {
				let d = d.strip_prefix('-').unwrap_or(d);
				let (i, f) = match d.split_once('.') {
					Some((i, f)) => (i, Some(f)),
					None => (d, None),
				};
				let num = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
				num(i) && f.is_none_or(num) && (i == "0" || !i.starts_with('0'))
			};
			if !shape || parse_decimal(d).as_ref() != Some(n) {
				bad!("the decimal representation of {n} is {d}")
			}
			cov.hit("decimal number");
		}
		(d, _) => bad!("the decimal representation of {n} is {d:?}"),
	}
	let native = guard("as_native", || real.as_native())?;
	let ok = match native {
		NativeNumber::U64(u) => *n == BigRational::from_integer(u.into()),
		NativeNumber::I64(i) => *n == BigRational::from_integer(i.into()),
		NativeNumber::F64(f) => !fits_native(n) && approximates(f, n),
	};
	if !ok {
		bad!("the native number of {n} is another number")
	}
	let f = guard("to_f64", || real.to_f64())?;
	if !approximates(f, n) {
		bad!("{n} converted to {f}")
	}
	cov.observe(n.to_string());
	Ok(())
}

fn check_native(rng: &mut Rng, cov: &mut Cov) -> Case {
	let bits = rng.next();
	let r = |n: Number| n.into_big_rational();
	macro_rules! ints {
		($($t:ty),*) => { $({
			let i = match rng.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => bits as $t };
			if r(Number::from(i)) != BigRational::from_integer(BigInt::from(i)) {
				bad!("conversion of {i}{}", stringify!($t))
			}
		})* }
	}
	ints!(u8, u16, u32, u64, i8, i16, i32, i64);
	let f = *rng.pick(&[
		f64::from_bits(bits),
		(bits as i32) as f64 / 8.0,
		0.1,
		-0.0,
		f64::NAN,
		f64::INFINITY,
		f64::NEG_INFINITY,
		f64::MIN_POSITIVE,
		5e-324,
	]);
	cov.eval();
	match (Number::try_from(f), float(f)) {
		(Ok(n), Some(x)) if r(n.clone()) == x => cov.hit("finite float"),
		(Err(_), None) => cov.hit("non finite float"),
		(n, _) => bad!("conversion of {f:?}: {:?}", n.map(|n| n.to_string()).ok()),
	}
	let f = *rng.pick(&[f32::from_bits(bits as u32), 0.1, f32::NAN, f32::NEG_INFINITY, 1e-45]);
	match (Number::try_from(f), float(f as f64)) {
		(Ok(n), Some(x)) if r(n.clone()) == x => (),
		(Err(_), None) => (),
		(n, _) => bad!("conversion of {f:?}f32: {:?}", n.map(|n| n.to_string()).ok()),
	}
	Ok(())
}

fn check_to_json(v: &Value, cov: &mut Cov) -> Case {
	let mut reasons = Vec::new();
	non_json(v, &mut reasons);
	cov.eval();
	let a: Result<json_syntax::Value, NonJsonValue> = guard("to JSON", || v.clone().try_into())?;
	match a {
		Ok(j) => {
			if !reasons.is_empty() {
				bad!("a value that is not JSON is converted to {}", from_syntax(&j).print())
			}
			let j = from_syntax(&j);
			if json_value(&j) != *v {
				bad!("converted to another JSON value: {}", j.print())
			}
			cov.hit("to JSON");
		}
		Err(e) => {
			if !reasons.contains(&why(&e)) {
				bad!("not converted to JSON: {e}")
			}
			cov.hit(format!("not JSON: {}", why(&e)));
		}
	}
	if huge(v) {
		return Ok(());
	}
	let a: Result<serde_json::Value, NonJsonValue> = guard("to JSON (serde)", || v.clone().try_into())?;
	match a {
		Ok(j) => {
			if !reasons.is_empty() {
				bad!("a value that is not JSON is converted to {j}")
			}
			if !same_rounded(&json_value(&from_serde(&j)), v) {
				bad!("converted to another JSON value (serde): {j}")
			}
		}
		Err(e) => {
			if !reasons.contains(&why(&e)) {
				bad!("not converted to JSON (serde): {e}")
			}
		}
	}
	Ok(())
}

/// Serialization with serde.
fn check_serde(v: &Value, cov: &mut Cov) -> Case {
	if huge(v) {
		return Ok(());
	}
	cov.eval();
	let mut reasons = Vec::new();
	non_json(v, &mut reasons);
	if !reasons.contains(&"bytes") && !reasons.contains(&"key") {
		let text = guard("serialize", || serde_json::to_string(v))?.map_err(|e| format!("not serialized: {e}"))?;
		let j: serde_json::Value = serde_json::from_str(&text).map_err(|e| format!("{e}: {text}"))?;
		if !same_rounded(&json_value(&from_serde(&j)), v) {
			bad!("serialized as another value: {text}")
		}
		let w: Value = guard("deserialize", || serde_json::from_str(&text))?
			.map_err(|e| format!("not deserialized: {e}: {text}"))?;
		if !same_rounded(&w, v) {
			bad!("deserialized as another value: {text}")
		}
		cov.hit("serde JSON round trip");
	}
	let bytes = guard("serialize (cbor)", || serde_cbor::to_vec(v))?.map_err(|e| format!("not serialized: {e}"))?;
	let w: Value = guard("deserialize (cbor)", || serde_cbor::from_slice(&bytes))?
		.map_err(|e| format!("not deserialized: {e}"))?;
	if !same_rounded(&w, v) && !rounded_keys(v) {
		bad!("deserialized (cbor) as {w:?}")
	}
	cov.hit("serde CBOR round trip");
	Ok(())
}

/// Are there keys containing numbers that are rounded?
fn rounded_keys(v: &Value) -> bool {
	fn rounded(v: &Value) -> bool {
		match v {
			Value::Literal(Literal::Number(n)) => !fits_native(n.as_big_rational()),
			Value::Literal(_) => false,
			Value::List(l) => l.iter().any(rounded),
			Value::Map(m) => m.iter().any(|(k, v)| rounded(k) || rounded(v)),
		}
	}
	match v {
		Value::Literal(_) => false,
		Value::List(l) => l.iter().any(rounded_keys),
		Value::Map(m) => m.iter().any(|(k, v)| rounded(k) || rounded_keys(k) || rounded_keys(v)),
	}
}

fn p11(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	// from JSON.
	for _ in 0..3 {
		let depth = rng.below(4);
		let j = json(rng, depth);
		let text = j.print();
		cov.case = format!("document: {text}\n");
		let expected = json_value(&j);
		let (json, map) = json_syntax::Value::parse_str(&text).map_err(|e| e.to_string())?;
		cov.eval();
		if !has_empty_object(&j) {
			use json_syntax::TryFromJson;
			let v = guard("from located JSON", || Value::try_from_json_at(&json, &map, 0))?.unwrap();
			if v != expected {
				bad!("read (located) as {v:?}, expected {expected:?}")
			}
		}
		let v: Value = guard("from JSON", || json.into())?;
		if v != expected {
			bad!("read as {v:?}, expected {expected:?}")
		}
		let sj: serde_json::Value = match serde_json::from_str(&text) {
			Ok(j) => j,
			Err(_) => continue,
		};
		let exp = json_value(&from_serde(&sj));
		let v: Value = guard("from JSON (serde)", || sj.into())?;
		if v != exp {
			bad!("read (serde) as {v:?}, expected {exp:?}")
		}
		if value_size(&expected) >= 3 || matches!(j, J::Num(_)) {
			cov.observe(&text);
			cov.sample(|| text.clone());
		}
		check_to_json(&expected, cov)?;
		check_serde(&expected, cov)?;
	}
	for _ in 0..2 {
		let depth = rng.below(4);
		let wild = *rng.pick(&[0, 10, 40]);
		let v = value(rng, depth, wild);
		cov.case = format!("value: {v:?}\n");
		check_to_json(&v, cov)?;
		check_serde(&v, cov)?;
		if value_size(&v) >= 3 {
			cov.observe(format!("{v:?}"));
		}
	}
	let n = rational(rng);
	cov.case = format!("number: {n}\n");
	check_number(&n, cov)?;
	cov.case = "native numbers\n".into();
	check_native(rng, cov)
}

/// Compares a CBOR number.
fn cbor_number(c: &Cbor, n: &BigRational) -> bool {
	if !n.is_integer() {
		return matches!(c, Cbor::Float(f) if approximates(*f, n));
	}
	let i = n.to_integer();
	match c {
		Cbor::Integer(j) => i == BigInt::from(*j) && i.abs() < BigInt::from(1) << 64usize,
		Cbor::Tag(t @ (2 | 3), b) => match &**b {
			Cbor::Bytes(b) => {
				let m = BigInt::from_bytes_be(num_bigint::Sign::Plus, b);
				let j = if *t == 2 { m } else { -BigInt::from(1) - m };
				i == j && i.abs() >= BigInt::from(1) << 64usize
			}
			_ => false,
		},
		_ => false,
	}
}

pub fn cbor_value(c: &Cbor, v: &Value) -> bool {
	match (v, c) {
		(Value::Literal(Literal::Unit), c) => *c == Cbor::Null,
		(Value::Literal(Literal::Boolean(b)), c) => *c == Cbor::Bool(*b),
		(Value::Literal(Literal::Number(n)), c) => cbor_number(c, n.as_big_rational()),
		(Value::Literal(Literal::ByteString(b)), Cbor::Bytes(c)) => b == c,
		(Value::Literal(Literal::TextString(s)), Cbor::Text(t)) => s == t,
		(Value::List(l), Cbor::Array(a)) => l.len() == a.len() && l.iter().zip(a).all(|(v, c)| cbor_value(c, v)),
		(Value::Map(m), Cbor::Map(c)) => {
			m.len() == c.len()
				&& m.iter().all(|(k, v)| {
					c.iter()
						.any(|(d, w)| cbor_value(d, k) && cbor_value(w, v))
				})
		}
		_ => false,
	}
}

/// Checks the type of the value, and returns the untyped one.
fn untyped(v: &TypedValue) -> Value {
	match v {
		TypedValue::Literal(TypedLiteral::Unit(v, _)) => v.clone(),
		TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Value::Literal(Literal::Boolean(*b)),
		TypedValue::Literal(TypedLiteral::Number(n, _)) => Value::Literal(Literal::Number(n.clone())),
		TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Value::Literal(Literal::ByteString(b.clone())),
		TypedValue::Literal(TypedLiteral::TextString(s, _) | TypedLiteral::Id(s, _)) => text(s.clone()),
		TypedValue::Variant(v, _, _) => untyped(v),
		TypedValue::Map(m, _) => Value::Map(m.iter().map(|(k, v)| (k.clone(), untyped(v))).collect()),
		TypedValue::List(l, _) => Value::List(l.iter().map(untyped).collect()),
		TypedValue::Always(v) => v.clone(),
	}
}

fn type_of(v: &TypedValue) -> Option<Term> {
	Some(match v {
		TypedValue::Literal(TypedLiteral::Unit(_, t)) => t.id().clone(),
		TypedValue::Literal(TypedLiteral::Boolean(_, t)) => t.id().clone(),
		TypedValue::Literal(TypedLiteral::Number(_, t)) => t.id().clone(),
		TypedValue::Literal(TypedLiteral::ByteString(_, t)) => t.id().clone(),
		TypedValue::Literal(TypedLiteral::TextString(_, t)) => t.id().clone(),
		TypedValue::Literal(TypedLiteral::Id(_, t)) => t.id().clone(),
		TypedValue::Variant(_, t, _) => t.id().clone(),
		TypedValue::Map(_, t) => t.id().clone(),
		TypedValue::List(_, t) => t.id().clone(),
		TypedValue::Always(_) => return None,
	})
}

#[derive(Debug, PartialEq)]
enum Tag {
	None,
	Some(u64),
	Bad(&'static str),
}

fn tag(e: Option<&Extra>) -> Tag {
	match e {
		None => Tag::None,
		Some(Extra::Num(n)) if *n >= 0 => Tag::Some(*n as u64),
		Some(Extra::Num(_) | Extra::Bool(_) | Extra::Str(_)) => Tag::Bad("type"),
		Some(Extra::Typed(v, t)) => match t.strip_prefix(XSD) {
			Some("unsignedLong" | "unsignedInt" | "unsignedShort" | "unsignedByte") => match v.parse() {
				Ok(n) => Tag::Some(n),
				Err(_) => Tag::Bad("value"),
			},
			_ => Tag::Bad("type"),
		},
	}
}

/// Compares the tagged CBOR value.
fn tagged(c: &Cbor, v: &TypedValue, tags: &BTreeMap<Term, Option<Extra>>) -> bool {
	let inner = match type_of(v) {
		Some(t) => match tag(tags.get(&t).and_then(Option::as_ref)) {
			Tag::None => c,
			Tag::Some(n) => match c {
				Cbor::Tag(m, c) if *m == n => c,
				_ => return false,
			},
			Tag::Bad(_) => return false,
		},
		None => c,
	};
	match (v, inner) {
		(TypedValue::Variant(v, _, _), c) => tagged(c, v, tags),
		(TypedValue::Map(m, _), Cbor::Map(c)) => {
			m.len() == c.len()
				&& m.iter()
					.all(|(k, v)| c.iter().any(|(d, w)| cbor_value(d, k) && tagged(w, v, tags)))
		}
		(TypedValue::List(l, _), Cbor::Array(a)) => {
			l.len() == a.len() && l.iter().zip(a).all(|(v, c)| tagged(c, v, tags))
		}
		(TypedValue::Map(..) | TypedValue::List(..), _) => false,
		(v, c) => cbor_value(c, &untyped(v)),
	}
}

fn bad_tags(v: &TypedValue, tags: &BTreeMap<Term, Option<Extra>>, out: &mut Vec<&'static str>, used: &mut u64) {
	if let Some(t) = type_of(v) {
		match tag(tags.get(&t).and_then(Option::as_ref)) {
			Tag::Bad(e) => out.push(e),
			Tag::Some(_) => *used += 1,
			Tag::None => (),
		}
	}
	match v {
		TypedValue::Variant(v, _, _) => bad_tags(v, tags, out, used),
		TypedValue::Map(m, _) => m.values().for_each(|v| bad_tags(v, tags, out, used)),
		TypedValue::List(l, _) => l.iter().for_each(|v| bad_tags(v, tags, out, used)),
		_ => (),
	}
}

/// Can serde_cbor write it?
fn check_encoding(c: &Cbor, cov: &mut Cov) -> Case {
	let bytes = guard("encoding", || serde_cbor::to_vec(c))?.map_err(|e| format!("not encoded: {e}"))?;
	let d: Cbor = serde_cbor::from_slice(&bytes).map_err(|e| format!("not decoded: {e}"))?;
	if d != *c {
		bad!("decoded as {d:?} instead of {c:?}")
	}
	cov.hit("encoded and decoded");
	Ok(())
}

fn p12(rng: &mut Rng, cov: &mut Cov, _: u64) -> Case {
	// untyped values.
	for _ in 0..3 {
		let depth = rng.below(4);
		let v = value(rng, depth, 40);
		cov.case = format!("value: {v:?}\n");
		let c: Cbor = guard("to CBOR", || v.clone().into())?;
		cov.eval();
		if !cbor_value(&c, &v) {
			bad!("converted to {c:?}")
		}
		if !rounded_keys(&v) {
			check_encoding(&c, cov)?;
		}
		if value_size(&v) >= 3 {
			cov.observe(format!("{v:?}"));
		}
	}
	let n = rational(rng);
	cov.case = format!("number: {n}\n");
	let c: Cbor = guard("to CBOR", || Number::new(n.clone()).into())?;
	cov.eval();
	if !cbor_number(&c, &n) {
		bad!("converted to {c:?}")
	}
	if matches!(c, Cbor::Tag(..)) || n.is_zero() || n.is_negative() {
		cov.observe(n.to_string());
		cov.hit("bignum, zero or negative");
	}
	check_encoding(&c, cov)?;
	// typed values.
	let mut g = Gen::new(rng, rng.clone().pct(50));
	g.tags = *rng.pick(&[10, 30, 60]);
	let (lays, _) = Gen::library_of(rng, g);
	let s = scene_of(rng, cov, lays)?;
	let mut tags: BTreeMap<Term, Option<Extra>> = BTreeMap::new();
	for (k, t) in &s.map {
		let e = s.reg.lays.get(k).and_then(|l| l.head()).and_then(|h| h.extra.get(CBOR_TAG)).cloned();
		tags.insert(t.clone(), e);
	}
	let docs = cov.case.clone();
	for _ in 0..2 {
		cov.case = docs.clone();
		let Some((data, graph, inputs)) = data(rng, &s, true) else {
			continue;
		};
		describe(cov, &data, &graph, &inputs);
		let ds = dataset(&data);
		let Ok(v) = guard("hydrate", || {
			tl::hydrate_with(&(), &(), &s.layouts, &ds, graph.as_ref(), &s.root_ref, &inputs)
		})?
		else {
			continue;
		};
		cov.eval();
		let u = untyped(&v);
		if v.clone().into_untyped() != u {
			bad!("the untyped value of {v:?} is {:?}", v.clone().into_untyped())
		}
		if v.type_().map(|t| t.id().clone()) != type_of(&v) {
			bad!("the type of {v:?} is {:?}", v.type_())
		}
		if let TypedValue::Literal(l) = &v {
			if Some(l.type_().id().clone()) != type_of(&v) || l.clone().into_untyped() != u {
				bad!("type or untyped value of {l:?}")
			}
			let mut reasons = Vec::new();
			non_json(&u, &mut reasons);
			let j: Result<serde_json::Value, NonJsonValue> = guard("to JSON", || l.clone().try_into())?;
			match j {
				Ok(j) if reasons.is_empty() && same_rounded(&json_value(&from_serde(&j)), &u) => (),
				Err(e) if reasons.contains(&why(&e)) => (),
				j => bad!("{l:?} converted to {j:?}"),
			}
		}
		let c: Cbor = guard("to CBOR", || v.clone().into())?;
		if !cbor_value(&c, &u) {
			bad!("{v:?} converted to {c:?}")
		}
		let mut errors = Vec::new();
		let mut used = 0;
		bad_tags(&v, &tags, &mut errors, &mut used);
		let c = guard("to tagged CBOR", || v.clone().try_into_tagged_serde_cbor(&s.layouts))?;
		match c {
			Ok(c) => {
				if !errors.is_empty() {
					bad!("invalid tags are accepted: {c:?}")
				}
				if !tagged(&c, &v, &tags) {
					bad!("{v:?} converted to {c:?} with tags {tags:?}")
				}
				cov.hit(if used > 0 { "tagged" } else { "no tag" });
				if used > 0 || value_size(&u) >= 3 {
					cov.observe(&cov.case.clone());
					let case = cov.case.clone();
					cov.sample(|| format!("{case}cbor: {c:?}"));
				}
			}
			Err(e) => {
				let k = match e {
					InvalidTag::NonLiteral => "non literal",
					InvalidTag::Value(_) => "value",
					InvalidTag::Type(_) => "type",
				};
				if !errors.contains(&k) {
					bad!("unexpected error {e}, expected {errors:?}")
				}
				cov.hit(format!("invalid tag: {k}"));
			}
		}
		if data.iter().any(super::interp::repeats) {
			continue;
		}
		interpreted(&s, &docs, &data, &graph, &inputs, &v, cov)?;
	}
	Ok(())
}

/// The conversion to tagged CBOR under an interpretation gives the same value.
fn interpreted(s: &super::distill::Scene, docs: &str, data: &[crate::refhy::Q], graph: &Option<Term>, inputs: &[Term], v: &TypedValue, cov: &mut Cov) -> Case {
	use rdf_types::interpretation::{Indexed, IriInterpretationMut, LiteralInterpretationMut};
	use rdf_types::vocabulary::{BlankIdIndex, IndexVocabulary, IriIndex};
	use rdf_types::{Id, InterpretationMut};
	let mut voc = IndexVocabulary::<IriIndex, BlankIdIndex>::new();
	let mut int = Indexed::new();
	let mut builder = tl::abs::Builder::new();
	let mut root = None;
	for d in &s.docs {
		let l: tl::abs::syntax::Layout = serde_json::from_str(d).map_err(|e| e.to_string())?;
		let r = guard("building the layouts", || l.build_with_interpretation(&mut voc, &mut int, &mut builder))?;
		match r {
			Ok(r) => root = Some(r),
			Err(e) => bad!("valid layouts are rejected under an interpretation: {e}\n{docs}"),
		}
	}
	let layouts = builder.build();
	let root = root.unwrap();
	let mut blanks = BTreeMap::new();
	let mut resource = |t: &Term| match t {
		Term::Id(Id::Iri(i)) => {
			let i = super::interp::iri_of(&mut voc, i);
			int.interpret_iri(i)
		}
		Term::Id(Id::Blank(_)) => match blanks.get(t) {
			Some(r) => *r,
			None => {
				let r = int.new_resource(&mut voc);
				blanks.insert(t.clone(), r);
				r
			}
		},
		Term::Literal(l) => {
			let l = super::interp::literal_of(&mut voc, l);
			int.interpret_literal(l)
		}
	};
	let mut ds = rdf_types::dataset::IndexedBTreeDataset::new();
	for q in data {
		ds.insert(rdf_types::Quad(resource(&q.0), resource(&q.1), resource(&q.2), q.3.as_ref().map(&mut resource)));
	}
	let rgraph = graph.as_ref().map(&mut resource);
	let rinputs: Vec<_> = inputs.iter().map(&mut resource).collect();
	let r = guard("hydrate", || tl::hydrate_with(&voc, &int, &layouts, &ds, rgraph.as_ref(), &root, &rinputs))?;
	let Ok(r) = r else {
		bad!("the dataset is not hydrated under an interpretation")
	};
	let expected = guard("to tagged CBOR", || v.clone().try_into_tagged_serde_cbor(&s.layouts))?;
	let found = guard("to tagged CBOR", || r.try_into_tagged_serde_cbor_with(&voc, &int, &layouts))?;
	cov.eval();
	match (&expected, &found) {
		(Ok(e), Ok(f)) if same_cbor(e, f) => cov.hit("CBOR under an interpretation"),
		(Err(_), Err(_)) => cov.hit("invalid tag under an interpretation"),
		_ => bad!("under an interpretation, converted to {found:?}, expected {expected:?}"),
	}
	Ok(())
}

/// Equality of CBOR values, where the items of arrays may be in any order.
fn same_cbor(a: &Cbor, b: &Cbor) -> bool {
	match (a, b) {
		(Cbor::Tag(i, a), Cbor::Tag(j, b)) => i == j && same_cbor(a, b),
		(Cbor::Array(a), Cbor::Array(b)) => {
			let mut left: Vec<&Cbor> = b.iter().collect();
			a.len() == b.len()
				&& a.iter().all(|x| match left.iter().position(|y| same_cbor(x, y)) {
					Some(i) => {
						left.remove(i);
						true
					}
					None => false,
				})
		}
		(Cbor::Map(a), Cbor::Map(b)) => {
			a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_cbor(v, w)))
		}
		(a, b) => a == b,
	}
}
