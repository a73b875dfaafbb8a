From 6452da3b1986795bd3bba9edd18eba8d42ffadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:45 +0000
Subject: [PATCH 01/58] fix: hydrating a sum layout matches each variant
 against its own variables and reports ambiguous or missing variants as errors

---
 layouts/src/distill/hy/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..a167e3f 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
@@ -295,11 +295,13 @@ where
 
 						match value {
 							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+								if selected.replace((i, value)).is_some() {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Variant {
+											layout: layout_ref.clone().cast(),
+											variant_name: variant.name.clone(),
+										},
+									)));
 								}
 							}
 							Err(e) => failures.push(Some(e)),
@@ -315,9 +317,7 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::IncompatibleLayout), // no matching variant.
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 1ef1f5dc4e0901ad5a20bcedb17cf7ecceef5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:03 +0000
Subject: [PATCH 02/58] fix: literals that do not fit the layout are reported
 as errors instead of panicking

---
 layouts/src/distill/de/data.rs |  6 ++---
 layouts/src/distill/hy/data.rs | 40 ++++++++++++++++------------------
 layouts/src/distill/hy/mod.rs  |  8 +++----
 3 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..2417c34 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
@@ -85,6 +85,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout),
 	}
 }
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..672ffe0 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // never matches a datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // never matches a datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // never matches a datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // never matches a datatype.
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -241,9 +241,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				let decimal = value.value();
 				Ok(decimal.into_big_rational().into())
 			}
-			Err(_) => {
-				todo!()
-			}
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index a167e3f..5a33c56 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::NoMatchingLiteral), // no IRI matching the layout
 					}
 				}
 			}
-- 
2.43.0


From a68001904bc36cfad3a753b62985679483a035e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:30 +0000
Subject: [PATCH 03/58] fix: converting the number zero to a native number does
 not panic

---
 layouts/src/value/mod.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..a5537b7 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -59,21 +59,14 @@ impl Number {
 		if self.0.is_integer() {
 			let n = self.0.numer();
 			match n.sign() {
-				Sign::Minus => {
-					if n.bits() < 64 {
-						let unsigned = n.iter_u64_digits().next().unwrap() as i64;
-						NativeNumber::I64(-unsigned)
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
-				Sign::NoSign | Sign::Plus => {
-					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
+				Sign::Minus => match n.to_i64() {
+					Some(i) => NativeNumber::I64(i),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
+				Sign::NoSign | Sign::Plus => match n.to_u64() {
+					Some(u) => NativeNumber::U64(u),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
 			}
 		} else {
 			NativeNumber::F64(self.0.to_f64().unwrap())
-- 
2.43.0


From 7911e31d23e0e09f02b8227687734bff7faeffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:31 +0000
Subject: [PATCH 04/58] fix: decimal representation of negative numbers has a
 single minus sign

---
 layouts/src/value/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index a5537b7..e93e1b0 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -104,7 +104,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer().abs() / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From aa71e851e4b9fa3d433480d00a845159c2a75868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:46 +0000
Subject: [PATCH 05/58] fix: JSON and XSD decimal numbers are converted exactly
 (negative fractions, exponents, missing digits)

---
 layouts/src/distill/de/data.rs |  4 +--
 layouts/src/distill/hy/data.rs |  5 +--
 layouts/src/value/mod.rs       | 57 ++++++++++++++++++++++------------
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 2417c34..5a16fb3 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 672ffe0..06891d6 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -237,10 +237,7 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
 		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
+			Ok(value) => Number::from_decimal_str(value).ok_or(Error::NoMatchingLiteral),
 			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index e93e1b0..c1d46f5 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -77,6 +76,41 @@ impl Number {
 		self.0.to_f64().unwrap()
 	}
 
+	/// Parses a number from its decimal representation, with an optional
+	/// exponent.
+	pub(crate) fn from_decimal_str(s: &str) -> Option<Self> {
+		let (mantissa, exponent) = match s.split_once(['e', 'E']) {
+			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
+			None => (s, 0),
+		};
+
+		let (is_negative, unsigned) = match mantissa.strip_prefix('-') {
+			Some(unsigned) => (true, unsigned),
+			None => (false, mantissa.strip_prefix('+').unwrap_or(mantissa)),
+		};
+
+		let (integer, fraction) = unsigned.split_once('.').unwrap_or((unsigned, ""));
+		let digits = [integer, fraction].concat();
+		if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+			return None;
+		}
+
+		let mut numer: BigInt = digits.parse().ok()?;
+		if is_negative {
+			numer = -numer
+		}
+
+		let scale = i64::from(exponent) - fraction.len() as i64;
+		let factor = BigRational::from_integer(TEN.pow(scale.unsigned_abs() as u32));
+		let numer = BigRational::from_integer(numer);
+
+		Some(Self(if scale < 0 {
+			numer / factor
+		} else {
+			numer * factor
+		}))
+	}
+
 	/// Returns the decimal representation of this number, if there is one.
 	pub fn decimal_representation(&self) -> Option<String> {
 		use std::fmt::Write;
@@ -180,34 +214,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From dac8818404676a7723fa0add2cb96490f7f2ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 06/58] fix: CBOR encoding of zero and of negative big integers

---
 layouts/src/value/cbor/serde_cbor.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..f66b9f0 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::{Signed, ToPrimitive};
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -140,16 +140,22 @@ impl From<Number> for serde_cbor::Value {
 	fn from(value: Number) -> Self {
 		match value.as_integer() {
 			Some(i) => {
-				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
-
-					let signed = if i.is_positive() { unsigned } else { -unsigned };
-
-					serde_cbor::Value::Integer(signed)
-				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+				match i.to_i128().filter(|_| i.bits() <= 64) {
+					Some(signed) => serde_cbor::Value::Integer(signed),
+					None => {
+						// Bignum: the byte string is the unsigned magnitude of `i`
+						// (tag 2), or of `-1 - i` (tag 3) if `i` is negative.
+						let (tag, n) = if i.is_positive() {
+							(2, i.clone())
+						} else {
+							(3, -1 - i)
+						};
+
+						serde_cbor::Value::Tag(
+							tag,
+							Box::new(serde_cbor::Value::Bytes(n.to_bytes_be().1)),
+						)
+					}
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 72bf963bc3301e55e953fcc66266929f649e6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 07/58] fix: CBOR encoding of unit layouts keeps the constant
 value

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index f66b9f0..bd0b58d 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From fef2cd82e1ccdce7d5cfe1072d18ff6285b51a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 08/58] fix: byte string literals are converted from and to
 xsd:hexBinary and xsd:base64Binary instead of panicking

---
 layouts/src/distill/de/data.rs | 24 ++++++++++++++++++++----
 layouts/src/distill/hy/data.rs | 12 ++++++++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5a16fb3..03a3f04 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -58,16 +58,32 @@ where
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
-	_rdf: &RdfContextMut<V, I>,
-	_value: &[u8],
-	_type_: &I::Resource,
+	rdf: &RdfContextMut<V, I>,
+	value: &[u8],
+	type_: &I::Resource,
 ) -> Result<RdfLiteral<V>, Error<Q>>
 where
 	V: LiteralVocabulary,
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	for i in rdf.interpretation.iris_of(type_) {
+		let iri = rdf.vocabulary.iri(i).unwrap();
+		let lexical = match xsd_types::Datatype::from_iri(iri) {
+			Some(xsd_types::Datatype::HexBinary) => xsd_types::HexBinary::new(value).to_string(),
+			Some(xsd_types::Datatype::Base64Binary) => {
+				xsd_types::Base64Binary::new(value).to_string()
+			}
+			_ => continue,
+		};
+
+		return Ok(rdf_types::Literal::new(
+			lexical,
+			LiteralType::Any(i.clone()),
+		));
+	}
+
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 06891d6..a54cba6 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -244,8 +244,16 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 	}
 }
 
-fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+fn hydrate_byte_string_value<R>(value: &str, type_: &Iri) -> Result<Vec<u8>, Error<R>> {
+	match xsd_types::Datatype::from_iri(type_) {
+		Some(xsd_types::Datatype::HexBinary) => xsd_types::HexBinaryBuf::decode(value)
+			.map(xsd_types::HexBinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral),
+		Some(xsd_types::Datatype::Base64Binary) => xsd_types::Base64BinaryBuf::decode(value)
+			.map(xsd_types::Base64BinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral),
+		_ => Err(Error::NoMatchingLiteral), // unknown byte string type.
+	}
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
-- 
2.43.0


From a1a167df1d548ded2985ef21da83fe11ced96afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:24 +0000
Subject: [PATCH 09/58] fix: numbers outside the value space of the layout's
 XSD datatype are rejected

---
 layouts/src/distill/de/data.rs |  5 ++---
 layouts/src/distill/hy/data.rs |  6 ++++--
 layouts/src/value/mod.rs       | 28 ++++++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 03a3f04..77ddc25 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -43,9 +43,8 @@ where
 {
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
-		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Some(decimal) = value.decimal_representation() {
-				// TODO better support for XSD decimal datatype.
+		if let Some(xsd_types::Datatype::Decimal(t)) = xsd_types::Datatype::from_iri(iri) {
+			if let Some(decimal) = value.decimal_representation().filter(|_| value.is_in(t)) {
 				return Ok(rdf_types::Literal::new(
 					decimal,
 					LiteralType::Any(i.clone()),
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index a54cba6..a106341 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -236,8 +236,10 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
-		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => Number::from_decimal_str(value).ok_or(Error::NoMatchingLiteral),
+		Some(xsd_types::Datatype::Decimal(t)) => match xsd_types::lexical::Decimal::parse(value) {
+			Ok(value) => Number::from_decimal_str(value)
+				.filter(|n| n.is_in(t))
+				.ok_or(Error::NoMatchingLiteral),
 			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index c1d46f5..6b9eeaf 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -111,6 +111,34 @@ impl Number {
 		}))
 	}
 
+	/// Checks that this number is in the value space of the given XSD datatype.
+	pub(crate) fn is_in(&self, datatype: xsd_types::DecimalDatatype) -> bool {
+		let iri = match datatype {
+			xsd_types::DecimalDatatype::Decimal => return true,
+			xsd_types::DecimalDatatype::Integer(t) => t.iri(),
+		};
+
+		let (min, max): (Option<i128>, Option<i128>) = match iri {
+			i if i == xsd_types::XSD_NON_POSITIVE_INTEGER => (None, Some(0)),
+			i if i == xsd_types::XSD_NEGATIVE_INTEGER => (None, Some(-1)),
+			i if i == xsd_types::XSD_NON_NEGATIVE_INTEGER => (Some(0), None),
+			i if i == xsd_types::XSD_POSITIVE_INTEGER => (Some(1), None),
+			i if i == xsd_types::XSD_LONG => (Some(i64::MIN.into()), Some(i64::MAX.into())),
+			i if i == xsd_types::XSD_INT => (Some(i32::MIN.into()), Some(i32::MAX.into())),
+			i if i == xsd_types::XSD_SHORT => (Some(i16::MIN.into()), Some(i16::MAX.into())),
+			i if i == xsd_types::XSD_BYTE => (Some(i8::MIN.into()), Some(i8::MAX.into())),
+			i if i == xsd_types::XSD_UNSIGNED_LONG => (Some(0), Some(u64::MAX.into())),
+			i if i == xsd_types::XSD_UNSIGNED_INT => (Some(0), Some(u32::MAX.into())),
+			i if i == xsd_types::XSD_UNSIGNED_SHORT => (Some(0), Some(u16::MAX.into())),
+			i if i == xsd_types::XSD_UNSIGNED_BYTE => (Some(0), Some(u8::MAX.into())),
+			_ => (None, None),
+		};
+
+		self.as_integer().is_some_and(|n| {
+			min.map_or(true, |min| *n >= min.into()) && max.map_or(true, |max| *n <= max.into())
+		})
+	}
+
 	/// Returns the decimal representation of this number, if there is one.
 	pub fn decimal_representation(&self) -> Option<String> {
 		use std::fmt::Write;
-- 
2.43.0


From c9d3a0871ea02f658b1a79c0912a9c860ef607bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 10/58] fix: variants of a sum layout that do not match the
 value leave nothing in the dehydrated dataset

---
 layouts/src/distill/de/mod.rs | 81 +++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..2a9c6ef 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -15,7 +15,7 @@ use rdf_types::{
 		ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation,
 		ReverseLiteralInterpretationMut,
 	},
-	vocabulary::IriVocabulary,
+	vocabulary::{IriVocabulary, LiteralVocabulary},
 	BlankIdBuf, Generator, Id, Interpretation, InterpretationMut, Quad, Term, VocabularyMut,
 };
 
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut assignments = Vec::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -535,9 +537,38 @@ where
 		layout_ref,
 		inputs,
 		output,
-	)
+		&mut assignments,
+	)?;
+
+	for assignment in assignments {
+		match assignment {
+			Assignment::Iri(resource, iri) => rdf.interpretation.assign_iri(&resource, iri),
+			Assignment::Literal(resource, literal) => {
+				rdf.interpretation.assign_literal(&resource, literal)
+			}
+		};
+	}
+
+	Ok(())
+}
+
+/// Lexical representation to assign to a resource once the deserialization
+/// succeeded.
+enum Assignment<R, I, L> {
+	Iri(R, I),
+	Literal(R, L),
 }
 
+type Assignments<V, I> = Vec<
+	Assignment<
+		<I as Interpretation>::Resource,
+		<V as IriVocabulary>::Iri,
+		<V as LiteralVocabulary>::Literal,
+	>,
+>;
+
+#[allow(clippy::too_many_arguments)]
+
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -546,6 +577,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
 	output: &mut D,
+	assignments: &mut Assignments<V, I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -589,10 +621,10 @@ where
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -603,10 +635,10 @@ where
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -620,10 +652,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -637,10 +669,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -655,7 +687,7 @@ where
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								assignments.push(Assignment::Iri(resource, i));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -677,6 +709,7 @@ where
 				let env = env.intro(rdf, variant.intro);
 				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
 
+				let mut variant_assignments = Vec::new();
 				if dehydrate_sub_value(
 					rdf,
 					layouts,
@@ -684,20 +717,25 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
+					&mut variant_assignments,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection
+					.replace((variant_dataset, variant_assignments))
+					.is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
+				Some((variant_dataset, variant_assignments)) => {
 					for quad in variant_dataset {
 						output.insert(quad);
 					}
 
+					assignments.extend(variant_assignments);
+
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -721,6 +759,7 @@ where
 								&field.value,
 								&env,
 								output,
+								assignments,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -758,6 +797,7 @@ where
 							&layout.item.value,
 							&env,
 							output,
+							assignments,
 						)?;
 					}
 
@@ -789,6 +829,7 @@ where
 							&layout.node.value,
 							&env,
 							output,
+							assignments,
 						)?;
 
 						head = rest;
@@ -816,6 +857,7 @@ where
 									&item_layout.value,
 									&env,
 									output,
+									assignments,
 								)?;
 							}
 							(None, None) => break,
@@ -832,6 +874,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -840,6 +883,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
 	output: &mut D,
+	assignments: &mut Assignments<V, I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -866,6 +910,7 @@ where
 		&format.layout,
 		&inputs,
 		output,
+		assignments,
 	)
 }
 
-- 
2.43.0


From 543c8bad18f0ff3402ca957d6169759c128a49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:18 +0000
Subject: [PATCH 11/58] fix: dehydrated quads without graph are inserted in the
 current graph, as hydration expects

---
 layouts/src/distill/de/mod.rs | 54 ++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 2a9c6ef..148385d 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -608,7 +608,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -616,7 +616,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -630,7 +630,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -644,7 +644,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -661,7 +661,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -681,7 +681,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -700,14 +700,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset_in(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				let mut variant_assignments = Vec::new();
 				if dehydrate_sub_value(
@@ -744,13 +744,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset_in(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -784,11 +784,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset_in(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -805,7 +805,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -818,7 +818,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset_in(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -839,7 +839,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -848,7 +848,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset_in(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -1002,12 +1006,28 @@ impl<R: Clone> Environment<'_, R> {
 		input: &BTreeDataset<Pattern<Q>>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
+	where
+		Q: Clone + Into<R>,
+		D: TraversableDataset<Resource = R> + DatasetMut,
+	{
+		self.instantiate_dataset_in(input, None, output)
+	}
+
+	/// Instantiates the `input` dataset, using `current_graph` as graph for the
+	/// quads that do not specify one.
+	pub fn instantiate_dataset_in<Q, D>(
+		&self,
+		input: &BTreeDataset<Pattern<Q>>,
+		current_graph: Option<&R>,
+		output: &mut D,
+	) -> Result<(), Error<Q>>
 	where
 		Q: Clone + Into<R>,
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From 24bd7982ca3500de358ae435d588f084caed3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 12/58] fix: dehydrating an empty ordered list makes its head
 the tail of the list

---
 layouts/src/distill/de/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 148385d..48a404f 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -809,6 +809,16 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The head of an empty list is its tail.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+						if head != tail {
+							for i in rdf.interpretation.iris_of(&tail) {
+								assignments.push(Assignment::Iri(head.clone(), i.clone()));
+							}
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From 7d8c92c4bb6955e56250da66ad290e6c303a4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 13/58] fix: hydrating a layout that leaves a variable unbound
 is reported as ambiguous instead of panicking

---
 layouts/src/distill/hy/data.rs | 30 ++++-------
 layouts/src/distill/hy/mod.rs  | 97 +++++++++++++++++++++++-----------
 2 files changed, 74 insertions(+), 53 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index a106341..d8a2cb3 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::{lexical::Lexical, ParseXsd};
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{select_resource, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(&layout.resource, &substitution, layout_ref.as_casted())?;
 
 			let mut value = None;
 
@@ -103,11 +100,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(&layout.resource, &substitution, layout_ref.as_casted())?;
 
 			let mut value = None;
 
@@ -146,11 +140,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(&layout.resource, &substitution, layout_ref.as_casted())?;
 
 			let mut value = None;
 
@@ -189,11 +180,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(&layout.resource, &substitution, layout_ref.as_casted())?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 5a33c56..c98669e 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -213,11 +213,7 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = select_resource(&layout.resource, &substitution, layout_ref)?;
 
 					let mut selected = None;
 
@@ -275,13 +271,14 @@ where
 				match variant_substitution {
 					Some(variant_substitution) => {
 						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
+							select_inputs(&variant.value.input, &variant_substitution, layout_ref)?;
 
 						let variant_graph = select_graph(
 							current_graph,
 							&variant.value.graph,
 							&variant_substitution,
-						);
+							layout_ref,
+						)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -351,10 +348,15 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let field_inputs =
+							select_inputs(&field.value.input, &field_substitution, layout_ref)?;
 
-						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+						let item_graph = select_graph(
+							current_graph,
+							&field.value.graph,
+							&field_substitution,
+							layout_ref,
+						)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -409,14 +411,18 @@ where
 					let mut items = Vec::new();
 
 					for item_substitution in matching {
-						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+						let item_inputs = select_inputs(
+							&layout.item.value.input,
+							&item_substitution,
+							layout_ref,
+						)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+							layout_ref,
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -447,8 +453,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = select_resource(&layout.head, &substitution, layout_ref)?;
+					let tail = select_resource(&layout.tail, &substitution, layout_ref)?;
 
 					let mut items = Vec::new();
 
@@ -473,14 +479,18 @@ where
 							tail: tail.clone(),
 						})?;
 
-						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+						let item_inputs = select_inputs(
+							&layout.node.value.input,
+							&item_substitution,
+							layout_ref,
+						)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+							layout_ref,
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -494,7 +504,8 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head =
+							select_resource(&Pattern::Var(rest), &item_substitution, layout_ref)?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -528,9 +539,14 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
-						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+						let item_inputs =
+							select_inputs(&item.value.input, &item_substitution, layout_ref)?;
+						let item_graph = select_graph(
+							current_graph,
+							&item.value.graph,
+							&item_substitution,
+							layout_ref,
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -553,10 +569,28 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+/// Returns the resource designated by the given `pattern`.
+///
+/// The data is ambiguous if the pattern is a variable left unbound by the
+/// layout, since any resource would then be suitable.
+fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+	layout_ref: &Ref<LayoutType, R>,
+) -> Result<R, Error<R>> {
+	pattern.apply(substitution).into_resource().ok_or_else(|| {
+		Error::DataAmbiguity(Box::new(DataFragment::Discriminant(layout_ref.clone())))
+	})
+}
+
+fn select_inputs<R: Clone>(
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+	layout_ref: &Ref<LayoutType, R>,
+) -> Result<Vec<R>, Error<R>> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| select_resource(p, substitution, layout_ref))
 		.collect()
 }
 
@@ -564,12 +598,11 @@ fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+	layout_ref: &Ref<LayoutType, R>,
+) -> Result<Option<R>, Error<R>> {
+	match graph_pattern {
+		Some(Some(p)) => select_resource(p, substitution, layout_ref).map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
-- 
2.43.0


From f02b20907eb0fb8c4d52694287fac44c618db10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 14/58] fix: hydrating a cyclic ordered list terminates with an
 error

---
 layouts/src/distill/hy/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index c98669e..a1966d7 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -457,8 +457,13 @@ where
 					let tail = select_resource(&layout.tail, &substitution, layout_ref)?;
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(Error::IncompatibleLayout); // cyclic list.
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From 36f6ed3c5a4b63a6c30e52ea551a84f278828d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 15/58] fix: hydrating cyclic data with a recursive layout
 terminates with an error

---
 layouts/src/distill/hy/mod.rs | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index a1966d7..c827665 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -153,9 +153,30 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 	)
 }
 
+/// Layout being hydrated.
+struct Frame<'a, R> {
+	parent: Option<&'a Self>,
+	layout_ref: &'a Ref<LayoutType, R>,
+	current_graph: Option<&'a R>,
+	inputs: &'a [R],
+}
+
+impl<R: PartialEq> Frame<'_, R> {
+	/// Checks if one of the parents hydrates the same data with the same layout.
+	fn is_cyclic(&self) -> bool {
+		std::iter::successors(self.parent, |frame| frame.parent).any(|frame| {
+			frame.layout_ref == self.layout_ref
+				&& frame.current_graph == self.current_graph
+				&& frame.inputs == self.inputs
+		})
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
@@ -164,6 +185,7 @@ fn hydrate_with_ref<V, I, D>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
+	parent: Option<&Frame<I::Resource>>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -185,6 +207,17 @@ where
 		});
 	}
 
+	let frame = Frame {
+		parent,
+		layout_ref,
+		current_graph,
+		inputs,
+	};
+
+	if frame.is_cyclic() {
+		return Err(Error::IncompatibleLayout); // cyclic data.
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -288,6 +321,7 @@ where
 							variant_graph.as_ref(),
 							&variant.value.layout,
 							&variant_inputs,
+							Some(&frame),
 						);
 
 						match value {
@@ -366,6 +400,7 @@ where
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
+							Some(&frame),
 						)?;
 
 						record.insert(key.clone(), value);
@@ -432,6 +467,7 @@ where
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -505,6 +541,7 @@ where
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -561,6 +598,7 @@ where
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item)
-- 
2.43.0


From 955c405c682f0f5e4f2e7c188b0f9c7c874cbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:26 +0000
Subject: [PATCH 16/58] fix: dehydrating with a sum layout that is a variant of
 itself terminates with an error

---
 layouts/src/distill/de/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 48a404f..cdc7e17 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -538,6 +538,7 @@ where
 		inputs,
 		output,
 		&mut assignments,
+		&[],
 	)?;
 
 	for assignment in assignments {
@@ -578,6 +579,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	inputs: &[I::Resource],
 	output: &mut D,
 	assignments: &mut Assignments<V, I>,
+	sums: &[&Ref<LayoutType, Q>],
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -699,6 +701,13 @@ where
 			_ => Err(Error::IncompatibleLayout),
 		},
 		Layout::Sum(layout) => {
+			// Sum layouts being tried on this same value.
+			if sums.contains(&layout_ref) {
+				return Err(Error::IncompatibleLayout);
+			}
+
+			let sums = [sums, &[layout_ref]].concat();
+
 			let env = env.intro(rdf, layout.intro);
 			env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 
@@ -719,6 +728,7 @@ where
 					&env,
 					&mut variant_dataset,
 					&mut variant_assignments,
+					&sums,
 				)
 				.is_ok() && selection
 					.replace((variant_dataset, variant_assignments))
@@ -760,6 +770,7 @@ where
 								&env,
 								output,
 								assignments,
+								&[],
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -798,6 +809,7 @@ where
 							&env,
 							output,
 							assignments,
+							&[],
 						)?;
 					}
 
@@ -840,6 +852,7 @@ where
 							&env,
 							output,
 							assignments,
+							&[],
 						)?;
 
 						head = rest;
@@ -872,6 +885,7 @@ where
 									&env,
 									output,
 									assignments,
+									&[],
 								)?;
 							}
 							(None, None) => break,
@@ -898,6 +912,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	env: &Environment<I::Resource>,
 	output: &mut D,
 	assignments: &mut Assignments<V, I>,
+	sums: &[&Ref<LayoutType, Q>],
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -925,6 +940,7 @@ where
 		&inputs,
 		output,
 		assignments,
+		sums,
 	)
 }
 
-- 
2.43.0


From 7267a70e16000165fe3fd424f0efe0d675c3ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 17/58] fix: the automaton of a regexp sequence starts with the
 first item of the sequence

---
 layouts/src/abs/regexp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..7bfc8d2 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -268,16 +268,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
+				let mut last = a;
 
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(last, None, ea);
+					last = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(last, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From 216189b82f27107a6197b0eb3ef87b2ec995d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 18/58] fix: regexp quantifiers apply to the preceding item
 instead of the whole sequence

---
 layouts/src/abs/regexp.rs | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 7bfc8d2..86a5bfb 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -78,7 +78,7 @@ impl RegExp {
 			Self::Any => Self::Any,
 			Self::Set(set) => Self::Set(set),
 			Self::Sequence(seq) => {
-				let new_seq = seq
+				let mut new_seq: Vec<_> = seq
 					.into_iter()
 					.filter_map(|e| {
 						if e.is_empty() {
@@ -88,7 +88,12 @@ impl RegExp {
 						}
 					})
 					.collect();
-				Self::Sequence(new_seq)
+
+				if new_seq.len() == 1 {
+					new_seq.pop().unwrap()
+				} else {
+					Self::Sequence(new_seq)
+				}
 			}
 			Self::Union(items) => {
 				if items.len() == 1 {
@@ -158,16 +163,17 @@ impl RegExp {
 	}
 
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		// Stack of alternatives, each being a list of items.
+		let mut stack = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
 		while let Some(c) = chars.next() {
 			match c {
 				'(' => {
-					stack.push(vec![RegExp::empty()]);
+					stack.push(vec![Vec::new()]);
 				}
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
+					let sub_exp = Self::from_alternatives(stack.pop().unwrap());
 					let options = stack
 						.last_mut()
 						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
@@ -175,7 +181,7 @@ impl RegExp {
 				}
 				'|' => {
 					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
+					options.push(Vec::new());
 				}
 				'[' => {
 					let options = stack.last_mut().unwrap();
@@ -191,15 +197,15 @@ impl RegExp {
 				}
 				'?' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
+					repeat_last(options.last_mut().unwrap(), 0, 1)
 				}
 				'*' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
+					repeat_last(options.last_mut().unwrap(), 0, u32::MAX)
 				}
 				'+' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
+					repeat_last(options.last_mut().unwrap(), 1, u32::MAX)
 				}
 				c => {
 					let options = stack.last_mut().unwrap();
@@ -212,11 +218,15 @@ impl RegExp {
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(Self::from_alternatives(stack.into_iter().next().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
 
+	fn from_alternatives(alternatives: Vec<Vec<Self>>) -> Self {
+		Self::Union(alternatives.into_iter().map(Self::Sequence).collect()).simplified()
+	}
+
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
@@ -354,6 +364,18 @@ pub enum ParseError {
 	IncompleteCharacterSet,
 }
 
+/// Repeats the last parsed item.
+fn repeat_last(items: &mut Vec<RegExp>, min: u32, max: u32) {
+	match items.last_mut() {
+		Some(item) => item.repeat(min, max),
+		None => {
+			let mut item = RegExp::empty();
+			item.repeat(min, max);
+			items.push(item)
+		}
+	}
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
-- 
2.43.0


From 5160cf674259fca56a452e0d6781310ad98a059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 19/58] fix: an unescaped dot in a regexp matches any character

---
 layouts/src/abs/regexp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 86a5bfb..c296697 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -195,6 +195,10 @@ impl RegExp {
 					charset.insert(c);
 					options.last_mut().unwrap().push(RegExp::Set(charset))
 				}
+				'.' => {
+					let options = stack.last_mut().unwrap();
+					options.last_mut().unwrap().push(RegExp::Any)
+				}
 				'?' => {
 					let options = stack.last_mut().unwrap();
 					repeat_last(options.last_mut().unwrap(), 0, 1)
@@ -580,6 +584,7 @@ fn fmt_range(range: btree_range_map::AnyRange<char>, f: &mut fmt::Formatter) ->
 
 fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 	match c {
+		'.' => write!(f, "\\."),
 		'(' => write!(f, "\\("),
 		')' => write!(f, "\\)"),
 		'[' => write!(f, "\\["),
-- 
2.43.0


From a33bd9d215a08400cc911290e44dda0db2ae87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 20/58] fix: a repeated regexp sequence is displayed between
 parenthesis

---
 layouts/src/abs/regexp.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index c296697..d02cb9a 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -117,7 +117,7 @@ impl RegExp {
 	}
 
 	pub fn is_simple(&self) -> bool {
-		matches!(self, Self::Any | Self::Set(_) | Self::Sequence(_))
+		matches!(self, Self::Any | Self::Set(_))
 	}
 
 	/// Checks if this regular expression matches only one value.
@@ -516,10 +516,9 @@ impl fmt::Display for RegExp {
 			}
 			Self::Sequence(seq) => {
 				for item in seq {
-					if seq.len() > 1 {
-						item.display_sub().fmt(f)?
-					} else {
-						item.fmt(f)?
+					match item {
+						Self::Sequence(_) => item.fmt(f)?,
+						_ => item.display_sub().fmt(f)?,
 					}
 				}
 
@@ -543,7 +542,10 @@ impl fmt::Display for RegExp {
 						write!(f, "|")?
 					}
 
-					item.display_sub().fmt(f)?
+					match item {
+						Self::Sequence(_) => item.fmt(f)?,
+						_ => item.display_sub().fmt(f)?,
+					}
 				}
 
 				Ok(())
-- 
2.43.0


From cc0723e626f355c656be6b659fac089aa38f68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 21/58] fix: the single value of a repeated regexp contains all
 the repetitions

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index d02cb9a..644968a 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -140,7 +140,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, min, _) => {
+				for _ in 0..*min {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
-- 
2.43.0


From bf6bb8b32e123ea553800767bc2efe1d014bbcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 22/58] fix: the product of non deterministic automata follows
 the empty transitions of each side

---
 layouts/src/utils/automaton.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..9fa0642 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -237,22 +237,26 @@ impl<Q: Ord> Automaton<Q> {
 							}
 						}
 						None => {
-							if let Some(b_successors) =
-								other.transitions.get(b).and_then(|s| s.get(&None))
-							{
-								let successors = transitions.entry(None).or_default();
-
-								for sa in a_successors {
-									for sb in b_successors {
-										let s = f(sa, sb);
-										stack.push((s.clone(), sa, sb));
-										successors.insert(s);
-									}
-								}
+							let successors = transitions.entry(None).or_default();
+
+							for sa in a_successors {
+								let s = f(sa, b);
+								stack.push((s.clone(), sa, b));
+								successors.insert(s);
 							}
 						}
 					}
 				}
+
+				if let Some(b_successors) = other.transitions.get(b).and_then(|s| s.get(&None)) {
+					let successors = transitions.entry(None).or_default();
+
+					for sb in b_successors {
+						let s = f(a, sb);
+						stack.push((s.clone(), a, sb));
+						successors.insert(s);
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From ef1d307d68483b38a43e59e242899e387af68a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 23/58] fix: minimizing an automaton keeps its final states

---
 layouts/src/utils/automaton.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 9fa0642..0896cc1 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -504,8 +504,17 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 
 		let mut result = DetAutomaton::new(map[&self.initial_state].clone());
 		for (source, transitions) in &self.transitions.0 {
-			for (range, target) in transitions {
-				result.add(map[source].clone(), range, map[target].clone());
+			// states that are not reachable are not part of the partition.
+			if let Some(source) = map.get(source) {
+				for (range, target) in transitions {
+					result.add(source.clone(), range, map[target].clone());
+				}
+			}
+		}
+
+		for q in &self.final_states {
+			if let Some(q) = map.get(q) {
+				result.add_final_state(q.clone());
 			}
 		}
 
-- 
2.43.0


From 5a47de6425099067164535e854e13238eb239639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 24/58] fix: try_map keeps the final states of the automaton

---
 layouts/src/utils/automaton.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 0896cc1..d9dc0a5 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -595,6 +595,15 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
-- 
2.43.0


From db3b356d4ee9f478122ce96e4aea7c07240cc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 25/58] fix: compressing an automaton visits all its states and
 terminates on cycles

---
 layouts/src/utils/automaton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index d9dc0a5..87f0541 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -681,7 +681,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					let mut compact_label = M::default();
 					append(&mut compact_label, label);
 
+					let mut visited = BTreeSet::new();
 					while let Some((label, s)) = self.single_transition_of(r) {
+						if !visited.insert(r) || visited.contains(s) {
+							break; // cycle.
+						}
+
 						if self.is_final_state(r) {
 							q_transitions.insert(compact_label.clone(), r.clone());
 						}
@@ -691,6 +696,7 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					}
 
 					q_transitions.insert(compact_label, r.clone());
+					stack.push(r);
 				}
 
 				transitions.insert(q.clone(), q_transitions);
-- 
2.43.0


From c3fd24960619437f4d97fd2d00fba2097d74e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 26/58] fix: string and id layouts only match the values
 recognized by their pattern

---
 layouts/src/distill/de/mod.rs  |  8 ++++++--
 layouts/src/distill/hy/data.rs |  8 ++++++++
 layouts/src/distill/hy/mod.rs  |  4 +++-
 layouts/src/utils/automaton.rs | 20 ++++++++++++++++++++
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index cdc7e17..cd7d035 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -661,7 +661,9 @@ where
 
 						Ok(())
 					}
-					(DataLayout::TextString(layout), Literal::TextString(value)) => {
+					(DataLayout::TextString(layout), Literal::TextString(value))
+						if layout.pattern.as_ref().map_or(true, |p| p.contains(value)) =>
+					{
 						let env = env.intro(rdf, layout.intro);
 						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
@@ -681,7 +683,9 @@ where
 					_ => Err(Error::IncompatibleLayout),
 				},
 				LiteralLayout::Id(layout) => match value {
-					Literal::TextString(value) => {
+					Literal::TextString(value)
+						if layout.pattern.as_ref().map_or(true, |p| p.contains(value)) =>
+					{
 						let env = env.intro(rdf, layout.intro);
 						env.instantiate_dataset_in(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index d8a2cb3..017c081 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -192,6 +192,14 @@ where
 					LiteralTypeRef::LangString(_) => continue, // never matches a datatype.
 				};
 
+				if layout
+					.pattern
+					.as_ref()
+					.is_some_and(|p| !p.contains(literal.value))
+				{
+					continue;
+				}
+
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index c827665..35c40f7 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -253,7 +253,9 @@ where
 					for i in interpretation.iris_of(&resource) {
 						let iri = vocabulary.iri(i).unwrap();
 
-						// TODO check automaton.
+						if layout.pattern.as_ref().is_some_and(|p| !p.contains(iri)) {
+							continue;
+						}
 
 						if selected.replace(iri).is_some() {
 							return Err(Error::DataAmbiguity(Box::new(
diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 87f0541..766bdda 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -3,6 +3,7 @@ use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
 	marker::PhantomData,
+	ops::RangeBounds,
 };
 
 use super::charset_intersection;
@@ -317,6 +318,25 @@ impl<Q, L> DetAutomaton<Q, L> {
 	}
 }
 
+impl<Q: Ord> DetAutomaton<Q> {
+	/// Checks if the automaton recognizes the given string.
+	pub fn contains(&self, s: &str) -> bool {
+		let mut q = &self.initial_state;
+
+		for c in s.chars() {
+			match self
+				.transitions_from(q)
+				.find(|(label, _)| label.contains(&c))
+			{
+				Some((_, target)) => q = target,
+				None => return false,
+			}
+		}
+
+		self.is_final_state(q)
+	}
+}
+
 impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 	pub fn is_initial_state(&self, q: &Q) -> bool {
 		self.initial_state == *q
-- 
2.43.0


From 0f8d28a7faedc920f265eb622d36a4cffaa42f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 27/58] fix: literal layouts use the number of inputs they
 declare

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..63da1aa 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(d) => d.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From bfccf258864bbd151f3488961e68105467f576ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 28/58] fix: building several anonymous layouts in the same
 builder gives them distinct identifiers

---
 layouts/src/abs/syntax/build.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..342c89c 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,14 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			// The generator may be new while the builder already contains
+			// anonymous layouts.
+			let id = Term::Id(self.generator.next(&mut ()));
+			if !self.builder.layouts.contains_key(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 57c1ad1e9430987d98726ccfe8eed05235393294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 29/58] fix: literal layouts without resource are serialized
 without a null resource, which is not a valid pattern

---
 layouts/src/abs/syntax/layout/literal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..c788371 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,6 +253,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -346,6 +347,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +417,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -487,6 +490,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -568,6 +572,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
-- 
2.43.0


From 53349a6355ed206d90f624367bf9bad0dab169a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 30/58] fix: a null graph in a value format selects the default
 graph instead of being ignored

---
 layouts/src/abs/syntax/layout/sum.rs |  9 ++++++---
 layouts/src/abs/syntax/mod.rs        | 18 +++++++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..250ef2a 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -209,7 +209,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -239,8 +243,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..916d2a6 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -503,10 +503,23 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
+/// Deserializes an optional entry that is present, even if its value is `null`.
+pub(crate) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	T: Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 impl TryFromJsonObject for ValueFormat {
 	type Error = Error;
 
@@ -520,8 +533,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
-- 
2.43.0


From a7a05161d297ef193cc7bb66c8c05754ca09e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 31/58] fix: negative integer extra properties have a single
 minus sign

---
 layouts/src/abs/syntax/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..541a557 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -75,7 +75,7 @@ impl<C: Context> Build<C> for Resource {
 				let type_ = value.decimal_type();
 
 				Ok(context.literal_resource(
-					value.lexical_representation(),
+					&n.to_string(),
 					LexicalLiteralTypeRef::Any(type_.iri()),
 				))
 			}
-- 
2.43.0


From 1a8d35dff80b15aba0dce70aa83d49cd11e785b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 32/58] fix: a graph variable does not match quads of the
 default graph, instead of panicking

---
 layouts/src/pattern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..3f32c90 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?; // a variable never matches the default graph.
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 610eae22595422eff57fe3cbc0c8751b7d3c004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 33/58] fix: the language of literal patterns is not ignored by
 the serde syntax

---
 layouts/src/abs/syntax/pattern/literal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..933e50f 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -94,6 +94,7 @@ impl From<rdf_types::LiteralType> for LiteralType {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeIri {
 	#[serde(
 		rename = "type",
@@ -112,6 +113,7 @@ impl LiteralTypeIri {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeLanguage {
 	pub language: LangTagBuf,
 }
-- 
2.43.0


From ec469773aad54708483bdaa8f8437af5b06c4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 34/58] fix: literal patterns without type nor language are
 xsd:string literals in the located JSON syntax, as in the serde syntax

---
 layouts/src/abs/syntax/pattern/literal.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 933e50f..bf427cc 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -29,11 +29,12 @@ impl LiteralValue {
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
-- 
2.43.0


From 64565cdde6abf3a34044b6dde4cd4ea220c69f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 35/58] fix: boolean layouts can be used wherever a layout is
 expected in the located JSON syntax

---
 layouts/src/abs/syntax/layout/list.rs | 3 ++-
 layouts/src/abs/syntax/layout/mod.rs  | 9 ++++++++-
 layouts/src/abs/syntax/layout/sum.rs  | 3 ++-
 layouts/src/abs/syntax/mod.rs         | 3 ++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..6461d0e 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -173,9 +173,10 @@ impl TryFromJson for ListNodeOrLayout {
 					ListNode::try_from_json_object_at(value, code_map, offset).map(Self::ListNode)
 				}
 			}
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..43c0466 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -309,9 +309,10 @@ impl TryFromJson for LayoutRef {
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
+			json_syntax::Value::Boolean(value) => Ok((*value).into()),
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
@@ -333,6 +334,12 @@ where
 	}
 }
 
+impl From<bool> for LayoutRef {
+	fn from(value: bool) -> Self {
+		Self::Layout(Box::new(Layout::Boolean(value)))
+	}
+}
+
 impl From<IriBuf> for LayoutRef {
 	fn from(value: IriBuf) -> Self {
 		Self::Ref(value.into())
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 250ef2a..ee192b7 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -174,9 +174,10 @@ impl TryFromJson for VariantFormatOrLayout {
 					VariantFormat::try_from_json_at(json, code_map, offset).map(Self::Format)
 				}
 			}
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 916d2a6..2e280b9 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -468,9 +468,10 @@ impl TryFromJson for ValueFormatOrLayout {
 					ValueFormat::try_from_json_object_at(value, code_map, offset).map(Self::Format)
 				}
 			}
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From 6b5ba4ae8c14a1fd06b1380534e419f995aae2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 36/58] fix: determinized automata have disjoint transitions,
 so patterns recognize all their strings

---
 layouts/src/utils/automaton.rs | 85 ++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 766bdda..2e1820d 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -1,4 +1,4 @@
-use btree_range_map::{AnyRange, RangeMap, RangeSet};
+use btree_range_map::{AnyRange, RangeSet};
 use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
@@ -8,6 +8,14 @@ use std::{
 
 use super::charset_intersection;
 
+/// Returns the character following `c`, if any.
+fn char_successor(c: char) -> Option<char> {
+	match c {
+		'\u{d7ff}' => Some('\u{e000}'),
+		c => char::from_u32(c as u32 + 1),
+	}
+}
+
 /// Non deterministic state transitions.
 pub type Transitions<Q> = BTreeMap<Option<RangeSet<char>>, BTreeSet<Q>>;
 
@@ -106,50 +114,69 @@ impl<Q: Ord> Automaton<Q> {
 		&self,
 		states: &BTreeSet<&Q>,
 	) -> BTreeMap<AnyRange<char>, BTreeSet<&Q>> {
-		let mut map = RangeMap::new();
+		// Labelled ranges leaving the given states. `RangeMap::update` does not
+		// keep the ranges disjoint, so we split them ourselves.
+		let mut ranges = Vec::new();
 
 		for q in states {
 			if let Some(transitions) = self.transitions.get(q) {
 				for (label, targets) in transitions {
 					if let Some(label) = label {
+						let targets = self.modulo_epsilon_state(targets);
 						for range in label.iter() {
 							debug_assert!(!range.is_empty());
-
-							map.update(
-								*range,
-								|current_target_states_opt: Option<&BTreeSet<&Q>>| {
-									let mut current_target_states = match current_target_states_opt
-									{
-										Some(current_target_states) => {
-											current_target_states.clone()
-										}
-										None => BTreeSet::new(),
-									};
-
-									for q in targets {
-										current_target_states
-											.extend(self.modulo_epsilon_state(Some(q)));
-									}
-
-									Some(current_target_states)
-								},
-							);
-
-							assert!(map.get(range.first().unwrap()).is_some());
+							let start = range.first().unwrap();
+							let end = char_successor(range.last().unwrap());
+							ranges.push((start, end, targets.clone()));
 						}
 					}
 				}
 			}
 		}
 
-		let mut simplified_map = BTreeMap::new();
+		// Bounds of the disjoint ranges (`None` being after the last character).
+		let mut bounds: Vec<Option<char>> = ranges
+			.iter()
+			.flat_map(|(start, end, _)| [Some(*start), *end])
+			.collect();
+		bounds.sort_by_key(|bound| (bound.is_none(), *bound));
+		bounds.dedup();
+
+		let mut disjoint_ranges: Vec<(char, Option<char>, BTreeSet<&Q>)> = Vec::new();
+
+		for w in bounds.windows(2) {
+			if let (Some(a), b) = (w[0], w[1]) {
+				let mut targets = BTreeSet::new();
+				for (start, end, range_targets) in &ranges {
+					if *start <= a && end.map_or(true, |end| a < end) {
+						targets.extend(range_targets.iter().copied())
+					}
+				}
 
-		for (range, set) in map {
-			debug_assert!(!range.is_empty());
-			simplified_map.insert(range, set);
+				if !targets.is_empty() {
+					match disjoint_ranges.last_mut() {
+						Some((_, end, last_targets))
+							if *end == Some(a) && *last_targets == targets =>
+						{
+							*end = b
+						}
+						_ => disjoint_ranges.push((a, b, targets)),
+					}
+				}
+			}
 		}
 
-		simplified_map
+		disjoint_ranges
+			.into_iter()
+			.map(|(start, end, targets)| {
+				let range = match end {
+					Some(end) => (start..end).into(),
+					None => (start..=char::MAX).into(),
+				};
+
+				(range, targets)
+			})
+			.collect()
 	}
 
 	pub fn determinize(&self) -> DetAutomaton<BTreeSet<&Q>>
-- 
2.43.0


From 26ec083cfb8df1e73b7b60a18f6f137f02a5dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 37/58] fix: skipping a repetition does not enter the loops of
 the repeated expression

---
 layouts/src/abs/regexp.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 644968a..592a1b3 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -349,10 +349,13 @@ impl RegExp {
 			automaton.add(b, None, c);
 			(a, d)
 		} else {
+			// the initial and final states of the repeated expression may be part
+			// of a loop, so they cannot be used to skip it.
 			let (a, b) = self.build_into(new_state, automaton);
-			automaton.add(a, None, b);
-			automaton.add(b, None, a);
-			(a, b)
+			let c = new_state();
+			automaton.add(c, None, a);
+			automaton.add(b, None, c);
+			(c, c)
 		}
 	}
 }
-- 
2.43.0


From 13c7135471db8e00d60b317050488c1383ccf2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 38/58] fix: a regexp set containing every character is
 displayed as such

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 592a1b3..3062504 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -510,7 +510,11 @@ impl fmt::Display for RegExp {
 					if charset.len() > CHAR_COUNT / 2 {
 						write!(f, "^")?;
 						for range in charset.gaps() {
-							fmt_range(range.cloned(), f)?
+							let range = range.cloned();
+							// `gaps` wrongly yields an unbounded range as its own gap.
+							if !range.first().is_some_and(|c| charset.contains(c)) {
+								fmt_range(range, f)?
+							}
 						}
 					} else {
 						for range in charset {
-- 
2.43.0


From 578f2cb38a06707fca52afe6d9ae97ff61f531ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 39/58] fix: deserializing a compiled layout keeps the default
 graph of its components

---
 layouts/src/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layouts/src/format.rs b/layouts/src/format.rs
index c1b4be2..50506ca 100644
--- a/layouts/src/format.rs
+++ b/layouts/src/format.rs
@@ -3,6 +3,7 @@ use crate::{layout::LayoutType, Pattern, Ref};
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(bound(deserialize = "R: serde::Deserialize<'de>"))]
 pub struct ValueFormat<R> {
 	/// Layout.
 	pub layout: Ref<LayoutType, R>,
@@ -11,6 +12,11 @@ pub struct ValueFormat<R> {
 	pub input: Vec<Pattern<R>>,
 
 	/// Graph in which the layout is evaluated.
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern<R>>>,
 }
 
-- 
2.43.0


From 1f590d1f8dcf5c2dcdf901affce67623467af27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 40/58] fix: failing to write the end of the output is reported
 instead of being ignored

---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 514519e..4f44b7e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,7 +9,7 @@ use codespan_reporting::{
 use rdf_types::{generator, Generator, Term};
 use std::{
 	fs,
-	io::{self, BufReader},
+	io::{self, BufReader, Write},
 	path::PathBuf,
 	process::ExitCode,
 };
@@ -149,7 +149,10 @@ fn main() -> ExitCode {
 
 	let mut files = SimpleFiles::new();
 
-	match run(&mut files, args) {
+	// Errors are ignored if the output is flushed on exit.
+	let result = run(&mut files, args).and_then(|()| io::stdout().flush().map_err(Error::IO));
+
+	match result {
 		Ok(()) => ExitCode::SUCCESS,
 		Err(e) => {
 			let diagnostic = e.into_diagnostic();
-- 
2.43.0


From 60b03e9135173a361c8f7575ec0574c404679712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 41/58] fix: SerializeLd can be derived for string layouts

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..08aa8f7 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -150,7 +150,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						rdf.interpretation.assign_literal(#target, literal);
-- 
2.43.0


From 87e08cd210924bf68f8e91c874f64f1fea8d8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 42/58] fix: DeserializeLd can be derived for tuples of one
 element

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..39e703e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -573,7 +573,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From 6cab8c1400c1f2e70fb6ca3ee2f701576e89d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 43/58] fix: SerializeLd can be derived for layouts with
 constant inputs, or graphs of values

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 08aa8f7..6932a45 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -194,11 +194,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -208,11 +210,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -245,7 +249,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -256,11 +260,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, output);
+						let inputs = env.instantiate_patterns(&#variant_inputs);
+						let graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)
 					}
@@ -292,7 +298,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -307,11 +313,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, output);
 
+						let inputs = env.instantiate_patterns(&#item_value_inputs);
+						let graph: Option<I::Resource> = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 					}
@@ -338,7 +346,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -362,11 +370,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, output);
 
+						let inputs = env.instantiate_patterns(&#node_value_inputs);
+						let graph: Option<I::Resource> = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 
@@ -393,7 +403,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -406,11 +416,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, output);
 
+							let inputs = env.instantiate_patterns(&#item_value_inputs);
+							let graph: Option<I::Resource> = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&inputs,
+								graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From c64cfc3b3068f4cca23156ee39dd8e0fbb4b92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 44/58] fix: derived serialization assigns literals and IRIs to
 the layout's resource

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 6932a45..c52c090 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, output);
 
+					let target = env.instantiate_pattern(&#target);
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,17 +91,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,17 +110,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,17 +129,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,17 +148,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -465,46 +471,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From 5ffeeab631411140c23fa143d3a604faa4054f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 45/58] fix: derived serialization puts quads in the current
 graph, as expected by deserialization

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 16 ++++++++-
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index c52c090..e7f40c4 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -59,7 +59,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					let target = env.instantiate_pattern(&#target);
 					match ::treeldr::AsId::as_id(self) {
@@ -83,7 +83,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -95,7 +95,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
@@ -114,7 +114,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
@@ -133,7 +133,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
@@ -152,7 +152,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
@@ -199,7 +199,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
 								let inputs = env.instantiate_patterns(&#field_inputs);
 								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
@@ -215,7 +215,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset_in(&#field_dataset, current_graph, output);
 								let inputs = env.instantiate_patterns(&#field_inputs);
 								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
@@ -233,7 +233,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset_in(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -265,7 +265,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset_in(&#variant_dataset, current_graph, output);
 						let inputs = env.instantiate_patterns(&#variant_inputs);
 						let graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
@@ -281,7 +281,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset_in(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -313,11 +313,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
 						let inputs = env.instantiate_patterns(&#item_value_inputs);
 						let graph: Option<I::Resource> = #item_value_graph;
@@ -361,7 +361,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -374,7 +374,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset_in(&#node_dataset, current_graph, output);
 
 						let inputs = env.instantiate_patterns(&#node_value_inputs);
 						let graph: Option<I::Resource> = #node_value_graph;
@@ -420,7 +420,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset_in(&#item_dataset, current_graph, output);
 
 							let inputs = env.instantiate_patterns(&#item_value_inputs);
 							let graph: Option<I::Resource> = #item_value_graph;
@@ -437,7 +437,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset_in(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..34dac84 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -85,9 +85,23 @@ where
 	where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
+	{
+		self.instantiate_dataset_in(input, None, output)
+	}
+
+	/// Instantiates the `input` dataset, using `current_graph` as graph for the
+	/// quads that do not specify one.
+	pub fn instantiate_dataset_in<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
+		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			let Quad(s, p, o, g) = self.instantiate_quad(quad.as_ref());
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 	}
 }
-- 
2.43.0


From cb9432a61719e81ad56fbc46abcd1f8cffcb73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 46/58] fix: derived serialization of an empty list gives its
 head the IRI of its tail

---
 .../rust/treeldr-rs-macros/src/generate/ser.rs     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index e7f40c4..fffa347 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -365,6 +365,20 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					let mut head = env.instantiate_pattern(&#head);
 
+					if self.0.is_empty() {
+						// The empty list is its own tail.
+						let tail = env.instantiate_pattern(&#tail);
+						if head != tail {
+							let iris: Vec<_> = rdf.interpretation.iris_of(&tail)
+								.map(|i| rdf.vocabulary.iri(i).unwrap().to_owned())
+								.collect();
+							for iri in iris {
+								let i = rdf.vocabulary.insert_owned(iri);
+								rdf.interpretation.assign_iri(&head, i);
+							}
+						}
+					}
+
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
 							env.instantiate_pattern(&#tail)
-- 
2.43.0


From 850e481f94efaf96a4cc686b10cea58ac1ba3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 47/58] fix: derived deserialization of a cyclic list fails
 instead of never ending

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 39e703e..8238149 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -456,7 +456,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let mut items = Vec::new();
 
+					let mut visited = ::std::collections::BTreeSet::new();
+
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(::treeldr::DeserializeError::DataAmbiguity) // cyclic list.
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0


From ff885db620d7b574d892e99627dd5e1722216075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 48/58] fix: derived deserialization tries every variant of a
 sum

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 8238149..5113612 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -311,10 +311,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 98cdd289f699f154d246c18a4ef3b17487217f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 49/58] fix: derived deserialization ignores optional data
 about unknown resources

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 110 ++++++++++--------
 1 file changed, 59 insertions(+), 51 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5113612..5fe76c1 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// If a resource of the pattern is unknown, nothing matches.
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
@@ -287,18 +290,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// If a resource of the pattern is unknown, nothing matches.
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
@@ -382,37 +388,39 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						)
-					);
 
-					for item_substitution in matching {
-						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
-
-						let item_graph = ::treeldr::de::select_graph(
-							current_graph,
-							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
-							&item_substitution,
+					// If a resource of the pattern is unknown, there is no item.
+					if let Some(matching_dataset) = #node_dataset {
+						let matching = ::treeldr::de::Matching::new(
+							dataset,
+							substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
 						);
 
-						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
-							dataset,
-							item_graph.as_ref(),
-							&item_inputs
-						)?;
+						for item_substitution in matching {
+							let item_inputs =
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
 
-						items.push(item);
+							let item_graph = ::treeldr::de::select_graph(
+								current_graph,
+								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
+								&item_substitution,
+							);
+
+							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								item_graph.as_ref(),
+								&item_inputs
+							)?;
+
+							items.push(item);
+						}
 					}
 
 					Ok(Self(items))
-- 
2.43.0


From 32eb288acb8774a5a631db086dee95c7d7dbdf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 50/58] fix: deserializing a String from several string
 literals is ambiguous

---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8e9543e 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From 31d4db24cea9b84c370d290040f7e0ff1298ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 51/58] fix: derived deserialization matches graph variables
 with named graphs only, instead of panicking

---
 generators/rust/treeldr-rs/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..d7286dc 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// A graph variable does not match the default graph.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 571b4613a3f6939cee6c0facfcf10092c97a6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 52/58] fix: fields and variants with raw identifiers no longer
 make the derive macros panic

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs  | 8 ++++----
 generators/rust/treeldr-rs-macros/src/generate/mod.rs | 9 +++++++++
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5fe76c1..4d29981 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -171,7 +171,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				.collect::<Result<_, _>>()?;
 
 			let opt_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = super::member_ident(name);
 				let ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -180,7 +180,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let deserialize_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let field_ident = syn::Ident::new(name, Span::call_site());
+				let field_ident = super::member_ident(name);
 				let field_ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -231,7 +231,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let unwrap_fields = layout_fields.iter().copied().map(|(name, f)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = super::member_ident(name);
 				if f.required {
 					quote!(#ident: data.#ident.ok_or_else(|| ::treeldr::DeserializeError::MissingField(#name.to_owned()))?)
 				} else {
@@ -275,7 +275,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = super::member_ident(&variant.name);
 				let variant_ty = input
 					.type_map
 					.get(variant.value.layout.id().as_iri().unwrap())
diff --git a/generators/rust/treeldr-rs-macros/src/generate/mod.rs b/generators/rust/treeldr-rs-macros/src/generate/mod.rs
index 2e6ab62..40e846d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/mod.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/mod.rs
@@ -1,2 +1,11 @@
 pub mod de;
 pub mod ser;
+
+/// Identifier of a field or variant, which may be raw (such as `r#type`).
+fn member_ident(name: &str) -> syn::Ident {
+	let span = proc_macro2::Span::call_site();
+	match name.strip_prefix("r#") {
+		Some(raw) => syn::Ident::new_raw(raw, span),
+		None => syn::Ident::new(name, span),
+	}
+}
diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index fffa347..221b6d5 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -176,7 +176,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let name = key
 						.as_str()
 						.ok_or_else(|| Error::InvalidFieldIdent(key.clone()))?;
-					let field_ident = syn::Ident::new(name, Span::call_site());
+					let field_ident = super::member_ident(name);
 					let field_intro = field.intro;
 					let field_dataset = dataset_to_array(&field.dataset);
 					let field_layout = input
@@ -243,7 +243,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = super::member_ident(&variant.name);
 				let variant_intro = variant.intro;
 				let variant_dataset = dataset_to_array(&variant.dataset);
 				let variant_layout = input
-- 
2.43.0


From f83a69440f76420696ecfa2d6fdeeaa2a38ec1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 53/58] fix: types generated from unordered lists are accepted
 by the derive macros

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..3024334 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -442,7 +442,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From 2f1ae31dc7a5c00c8694c2cc1bb9f5ed40aaa8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 54/58] fix: optional fields are optional in generated types

---
 generators/rust/generator/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 3024334..533f4e0 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -374,10 +374,15 @@ where
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
-- 
2.43.0


From 65996d48fb7489ab7648b5827854082b50cb98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 55/58] fix: types generated from literal layouts keep their
 kind, datatype and resource

---
 generators/rust/generator/src/lib.rs | 70 ++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 533f4e0..ea96476 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -3,6 +3,7 @@ use std::{
 	hash::Hash,
 };
 
+use iref::{Iri, IriBuf};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use rdf_types::{
@@ -34,6 +35,9 @@ pub enum Error<R = Term> {
 
 	#[error("no IRI representation")]
 	NoIriRepresentation,
+
+	#[error("no Rust type for number datatype `{0}`")]
+	UnsupportedNumberDatatype(IriBuf),
 }
 
 #[derive(Debug, thiserror::Error)]
@@ -183,12 +187,40 @@ where
 {
 	match pattern {
 		Pattern::Var(i) => Ok(Id::Blank(BlankIdBuf::from_suffix(&i.to_string()).unwrap())),
-		Pattern::Resource(r) => rdf
-			.interpretation
-			.iris_of(r)
-			.next()
-			.map(|i| Id::Iri(rdf.vocabulary.iri(i).unwrap().to_owned()))
-			.ok_or(Error::NoIriRepresentation),
+		Pattern::Resource(r) => resource_to_iri(rdf, r).map(Id::Iri),
+	}
+}
+
+fn resource_to_iri<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &I::Resource,
+) -> Result<IriBuf, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	rdf.interpretation
+		.iris_of(resource)
+		.next()
+		.map(|i| rdf.vocabulary.iri(i).unwrap().to_owned())
+		.ok_or(Error::NoIriRepresentation)
+}
+
+/// Returns the Rust type representing the given XSD number datatype.
+fn number_type(datatype: &Iri) -> Option<TokenStream> {
+	match datatype
+		.as_str()
+		.strip_prefix("http://www.w3.org/2001/XMLSchema#")?
+	{
+		"unsignedByte" => Some(quote!(u8)),
+		"unsignedShort" => Some(quote!(u16)),
+		"unsignedInt" => Some(quote!(u32)),
+		"unsignedLong" => Some(quote!(u64)),
+		"byte" => Some(quote!(i8)),
+		"short" => Some(quote!(i16)),
+		"int" => Some(quote!(i32)),
+		"long" => Some(quote!(i64)),
+		_ => None,
 	}
 }
 
@@ -304,10 +336,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_to_iri(rdf, &layout.datatype)?.into_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(bool);
 					})
 				}
@@ -315,21 +349,28 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_to_iri(rdf, &layout.datatype)?;
+					let ty = number_type(&datatype)
+						.ok_or_else(|| Error::UnsupportedNumberDatatype(datatype.clone()))?;
+					let datatype = datatype.into_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(Number);
+						#[tldr(number, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
+						pub struct #ident(#ty);
 					})
 				}
 				DataLayout::TextString(layout) => {
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_to_iri(rdf, &layout.datatype)?.into_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +378,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_to_iri(rdf, &layout.datatype)?.into_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -349,11 +392,12 @@ where
 				let input = generate_input_attribute(layout.input);
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+				let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
 
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
-					pub struct #ident(Id);
+					#[tldr(id, #input, #intro, #dataset, resource(#resource))]
+					pub struct #ident(::treeldr::rdf_types::Id);
 				})
 			}
 		},
-- 
2.43.0


From e39c56f263b032dcae4747abca0c3c44cad199c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 56/58] fix: numbers deserialized by serde_json with arbitrary
 precision are numbers

With the arbitrary_precision feature of serde_json (used by the workspace, and
so by the generators reading layouts), numbers that are not 64 bits integers
were deserialized as maps, or rejected.
---
 layouts/src/value/de.rs  | 28 ++++++++++++++++++++++++++--
 layouts/src/value/mod.rs |  2 +-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 63a1318..024d098 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -2,6 +2,10 @@ use std::{collections::BTreeMap, fmt};
 
 use super::{Literal, Number, Value};
 
+/// Key of the single entry of the map representing a number, when the
+/// `arbitrary_precision` feature of `serde_json` is enabled.
+const JSON_NUMBER_KEY: &str = "$serde_json::private::Number";
+
 impl<'de> serde::Deserialize<'de> for Value {
 	#[inline]
 	fn deserialize<D>(deserializer: D) -> Result<Value, D::Error>
@@ -32,6 +36,16 @@ impl<'de> serde::Deserialize<'de> for Value {
 				Ok(Value::Literal(Literal::Number(value.into())))
 			}
 
+			#[inline]
+			fn visit_i128<E>(self, value: i128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(value.into())))
+			}
+
+			#[inline]
+			fn visit_u128<E>(self, value: u128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(value.into())))
+			}
+
 			#[inline]
 			fn visit_f64<E>(self, value: f64) -> Result<Value, E>
 			where
@@ -109,11 +123,21 @@ impl<'de> serde::Deserialize<'de> for Value {
 			{
 				let mut map = BTreeMap::new();
 
-				while let Some((key, value)) = visitor.next_entry()? {
+				while let Some((key, value)) = visitor.next_entry::<Value, Value>()? {
 					map.insert(key, value);
 				}
 
-				Ok(Value::Map(map))
+				match map.first_key_value() {
+					Some((key, value))
+						if map.len() == 1 && key.as_str() == Some(JSON_NUMBER_KEY) =>
+					{
+						match value.as_str().and_then(Number::from_decimal_str) {
+							Some(number) => Ok(Value::Literal(Literal::Number(number))),
+							None => Ok(Value::Map(map)),
+						}
+					}
+					_ => Ok(Value::Map(map)),
+				}
 			}
 		}
 
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 6b9eeaf..46bff9f 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -231,7 +231,7 @@ macro_rules! number_from_float {
 	};
 }
 
-number_from_integer!(u8, u16, u32, u64, i8, i16, i32, i64);
+number_from_integer!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
 number_from_float!(f32, f64);
 
 impl fmt::Display for Number {
-- 
2.43.0


From a98669943b35be6f211d498cd0151ec00d276c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 57/58] fix: Substitution::with_quad checks the resources of
 the pattern, as documented

---
 layouts/src/pattern.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 3f32c90..18cc9e5 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -147,6 +147,20 @@ impl<R> Substitution<R> {
 	where
 		R: Clone + PartialEq,
 	{
+		for (p, r) in [
+			(&pattern.0, value.0),
+			(&pattern.1, value.1),
+			(&pattern.2, value.2),
+		] {
+			if matches!(p, Pattern::Resource(s) if *s != r) {
+				return None;
+			}
+		}
+
+		if matches!(pattern.3, Some(Pattern::Resource(g)) if value.3 != Some(g)) {
+			return None;
+		}
+
 		let mut result = self.clone();
 
 		if let Pattern::Var(x) = pattern.0 {
-- 
2.43.0


From e86a8cd1cf356f8fad5baa1dced734922f327909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 58/58] fix: tldr-rs fails when a file is not a layout, instead
 of ignoring it

---
 generators/rust/generator/src/bin/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/bin/main.rs b/generators/rust/generator/src/bin/main.rs
index ab4ef87..fd3d9ee 100644
--- a/generators/rust/generator/src/bin/main.rs
+++ b/generators/rust/generator/src/bin/main.rs
@@ -61,7 +61,8 @@ fn main() -> ExitCode {
 				}
 			},
 			Err(e) => {
-				log::error!("parse error: {e}")
+				log::error!("parse error: {e}");
+				return ExitCode::FAILURE;
 			}
 		}
 	}
-- 
2.43.0

