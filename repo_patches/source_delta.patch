From 024a9b170436cb2a1eb0ee72dc57155886d37729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 01/23] fix: compare field orientations of both bundles in type
 equivalence

---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From a4f8159e28407c4d6eb3b612c12679e76c131c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 02/23] fix: make type equivalence reflexive for reset types

---
 src/types/ground.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..44106e2 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
-- 
2.43.0


From a3a303ee93a23914c6c6d8d48c002cef70285e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 03/23] fix: allow combining equal reset types, e.g. in a mux

---
 src/types/ground.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 44106e2..92b4588 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -89,8 +89,8 @@ impl super::TypeExt for GroundType {
 ///
 /// This [Combinator] combines [GroundType::UInt]s, [GroundType::SInt]s and
 /// [GroundType::Analog] based on [BitWidth] combination. [GroundType::Clock]s
-/// are combined to [GroundType::Clock]. Combination of different
-/// [GroundType] variants or [GroundType::Fixed] will result in an `Err`.
+/// are combined to [GroundType::Clock], equal [GroundType::Reset]s to that same
+/// [GroundType::Reset]. Combination of different [GroundType] variants or [GroundType::Fixed] will result in an `Err`.
 impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
     fn combine<'a>(
         &self,
@@ -102,6 +102,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From 876b8ea9b0c8ab22fd9deb55d9cad2416d185fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 04/23] fix: keep the width of a pad unknown if the operand's
 width is unknown

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..f1e0675 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,7 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From 0109f91d3e823d5d867367de520e35fe916172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 05/23] fix: type a cat with the sum of its operands' widths

---
 src/expr/primitive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index f1e0675..8f7abf1 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,8 +226,8 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
-            )),
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width()))
+            ),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
                 .or(t.width())
                 .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-- 
2.43.0


From 25b48286b331397c416cc479766ebe61b798025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 06/23] fix: compute the width of tail as w - n and don't
 overflow for bits

---
 src/expr/primitive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 8f7abf1..d30be54 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,12 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width()))
             ),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
+                (Some(l), Some(h)) => h.checked_sub(*l).and_then(|w| w.checked_add(1)),
+                (None,    Some(h)) => Some(*h),
+                (Some(l), None)    => t.width().and_then(|w| w.checked_sub(*l)),
+                (None,    None)    => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From a0a7c004a97c2926f94c326ba48aa8d5e8345d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 07/23] fix: expect and print the high bit before the low bit
 in bits expressions

---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..a21f5b3 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -130,7 +130,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index d30be54..fe29bc6 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -289,7 +289,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 766109189083a22c1165c7057e5be2adc78ae416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 08/23] fix: don't wrap large offsets when computing the point
 of incp and decp

---
 src/expr/primitive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index fe29bc6..2e27ee4 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -236,11 +236,11 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-- 
2.43.0


From 749e18a17ef0b07dc9d56c6657adb413c786ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 09/23] fix: type setp with the new precision and don't wrap
 large widths

---
 src/expr/primitive.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 2e27ee4..d0215a2 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -243,10 +243,10 @@ impl<R> types::Typed for Operation<R>
                 p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
-                    .and_then(|w| w.try_into().ok()),
-                p
+                w.and_then(|w| p.and_then(
+                    |p| (i32::from(w) - i32::from(p) + i32::from(*bits)).try_into().ok()
+                )),
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From f723950d523276b9c7cbde99cf08a5599eb95c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 10/23] fix: print the info of invalidations

---
 src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..04e4470 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,8 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  =>
+                writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From 79b38e6c5bf2be0524e4443c6e4b5290346a425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 11/23] fix: reject literals too wide for their implied width
 instead of panicking

---
 src/expr/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index a21f5b3..8938293 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,23 +26,17 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| width
+                .or_else(|| value.bits().try_into().ok())
+                .map(|width| E::UIntLiteral{value, width})
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
-                let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
+                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .map(|width| E::SIntLiteral{value, width})
         ),
         map(
             tuple((kw("mux"), lp, &sub, comma, &sub, comma, &sub, rp)),
-- 
2.43.0


From dcbc9cf44af06ab6ae017dc5688b97d8efd02a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 12/23] fix: imply the minimal width for SInt literals which
 are negative powers of two

---
 src/expr/parsers.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 8938293..91e4e8b 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -35,7 +35,16 @@ pub fn expr<'i, R: super::Reference + Clone>(
         map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
-                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .or_else(|| {
+                    // The magnitude of a negative number may exceed the one of
+                    // positive numbers by one in twos complement.
+                    let bits = if value.sign() == num_bigint::Sign::Minus {
+                        (&value + 1u8).bits()
+                    } else {
+                        value.bits()
+                    };
+                    bits.checked_add(1).and_then(|b| b.try_into().ok())
+                })
                 .map(|width| E::SIntLiteral{value, width})
         ),
         map(
-- 
2.43.0


From 37151e99816c1771367114f6be21c8bcbc16d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/23] fix: always print a decimal point for double parameters

---
 src/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.rs b/src/module.rs
index b221804..adf1d56 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,8 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            // Without the decimal point, the value would be parsed as an integer.
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
-- 
2.43.0


From 45ff55213b7d9d32a6f57d18a67d614eaa96d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 14/23] fix: reject empty identifiers and field names

---
 src/parsers.rs       | 4 ++--
 src/types/parsers.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..8911c6f 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,7 +5,7 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
+use nom::bytes::complete::take_while1;
 use nom::combinator::{map, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
@@ -70,6 +70,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From 4a756177c6375cf0330bf919a3306029b706a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 15/23] fix: accept bundle fields named flip

---
 src/types/parsers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 8911c6f..7e8c510 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -6,10 +6,10 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::bytes::complete::take_while1;
-use nom::combinator::{map, opt, value};
+use nom::combinator::{map, opt, peek, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -44,8 +44,10 @@ pub fn bitwidth(input: &str) -> IResult<super::BitWidth> {
 pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
+    // A field may itself be named "flip".
+    let flip = terminated(kw("flip"), peek(spaced(field_name)));
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((opt(flip), spaced(field_name), spaced(op(":")), spaced(r#type))),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
-- 
2.43.0


From 7db777c0bfe5a7a8071cc4695f48879f489dd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 16/23] fix: accept printf statements with an empty format
 string

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..231874b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -116,7 +116,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From 71d048a053a6282cddf84c408f2429dca50be00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 17/23] fix: reject printf statements with less arguments than
 format specifiers

---
 src/stmt/parsers.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 231874b..cebd12a 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,6 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
+use nom::error::{ErrorKind, ParseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -17,7 +18,7 @@ use crate::indentation::Indentation;
 use crate::info::{WithInfo, parse as info};
 use crate::memory::parsers::{memory, register, simple_mem, simple_mem_port};
 use crate::module::parsers::instance;
-use crate::parsers::{IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
+use crate::parsers::{Error, IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
 use crate::types::parsers::r#type;
 
 use super::{context::Context, print};
@@ -120,11 +121,14 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    // Each format specifier requires an argument.
+                    ps.map(|ps| (i, ps))
+                        .ok_or_else(|| nom::Err::Error(Error::from_error_kind(i, ErrorKind::MapOpt)))
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From 04a74ce55898f248f333f01a7de202ab29f939f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 18/23] fix: accept the end of the input in place of a final
 line ending

---
 src/parsers.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 4461d63..10f581e 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -144,16 +144,29 @@ pub fn op<'i>(operator: &'static str) -> impl nom::Parser<&'i str, (), Error<'i>
 /// Parse line endings, skipping preceding whitespace
 ///
 /// This parser consumes line endings, optionally preceded by whitespace and/or
-/// a comment. If no line ending is recognized, this parser will yield an error.
+/// a comment. The end of the input is accepted in place of a line ending. If
+/// neither is recognized, this parser will yield an error.
 pub fn le<'i>(input: &'i str) -> IResult<'i, ()> {
+    use nom::branch::alt;
     use nom::character::complete::{line_ending, not_line_ending};
-    use nom::combinator::opt;
-
-    nom::multi::fold_many1(
-        spaced(preceded(opt(tuple((chr(';'), not_line_ending))), line_ending)),
-        Default::default,
-        |_, _| ()
-    )(input)
+    use nom::combinator::{eof, opt};
+    use nom::multi::fold_many1;
+
+    fn comment(input: &str) -> IResult<()> {
+        value((), opt(tuple((chr(';'), not_line_ending))))(input)
+    }
+
+    fn last(input: &str) -> IResult<()> {
+        value((), spaced(preceded(comment, eof)))(input)
+    }
+
+    alt((
+        value((), tuple((
+            fold_many1(spaced(preceded(comment, line_ending)), Default::default, |_, _| ()),
+            opt(last),
+        ))),
+        last,
+    ))(input)
 }
 
 
-- 
2.43.0


From 413a52fc61005c1c16c378bf1cc0a476e88ba45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 19/23] fix: report lines of a module's body which are not
 recognized

---
 src/module/parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 4f817d1..d533019 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value};
+use nom::combinator::{iterator, map, not, value};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -104,7 +104,8 @@ pub fn module<'i>(
         |(_, kind, name, _, info, ..)| (name.into(), kind, info)
     )(input)?;
 
-    let mut indentation = indentation.sub();
+    let mut nested = indentation.sub();
+    let mut indentation = nested.clone();
 
     let (input, ports) = many0(
         map(tuple((indentation.parser(), port, le)), |(_, p, ..)| Arc::new(p))
@@ -146,6 +147,10 @@ pub fn module<'i>(
         },
     };
 
+    // Any line left which is indented deeper than the module itself is part of
+    // the module's body, but was not recognized.
+    let (input, _) = not(nested.parser())(input)?;
+
     Ok((input, super::Module::new(name, ports, kind).with_info(info)))
 }
 
-- 
2.43.0


From df0eb0ffc76a215e3e76ce10da1d534764e4a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 20/23] fix: report malformed modules following the top module
 when parsing a circuit

---
 src/circuit.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..2bac346 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -157,16 +157,12 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
     }
 
     /// Try to create the requested circuit, consuming the iterator
+    ///
+    /// The function will return an error if any of the remaining modules could
+    /// not be parsed, regardless of whether the top module was encountered.
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
-        let info = self.info;
-        match self.top_module {
-            TopState::Name(n)   => self
-                .modules
-                .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
-                .map(|r| r.map_err(Into::into))
-                .unwrap_or_else(|| Err("top module not found".to_owned().into())),
-            TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        self.try_for_each(|m| m.map(|_| ()).map_err(Into::into))?;
+        self.circuit().ok_or_else(|| "top module not found".to_owned().into())
     }
 }
 
-- 
2.43.0


From 1398b290e165478b1cd219178b46e624b34e7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 21/23] fix: don't lose the width of a dshl if it is just
 representable

---
 src/expr/primitive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index d0215a2..23c60e2 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -203,10 +203,10 @@ impl<R> types::Typed for Operation<R>
             }),
             Self::DShl(sub, bits)           => ground(sub).and_then(|t| Ok(t
                 .with_width(match (t.width(), ground(bits)?.width()) {
-                    (Some(ws), Some(wb)) => (1 as UBits)
+                    (Some(ws), Some(wb)) => 1u32
                         .checked_shl(wb.into())
-                        .and_then(|w| w.checked_add(ws))
-                        .map(|w| w - 1),
+                        .and_then(|w| (w - 1).checked_add(ws.into()))
+                        .and_then(|w| w.try_into().ok()),
                     _ => None,
                 })
             )),
-- 
2.43.0


From 435765d20fdd3542937b93c9fb05e82ae58187ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 22/23] fix: don't lose the width of a shr shifting out all
 bits of a fixed

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 23c60e2..bedf59b 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -196,7 +196,7 @@ impl<R> types::Typed for Operation<R>
                 GT::UInt(w)                 => Ok(GT::UInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::Fixed(Some(w), Some(p)) => Ok(
-                    GT::Fixed(w.checked_sub(*bits).map(|w| max(w, max(p, 1) as UBits)), Some(p))
+                    GT::Fixed(Some(max(w.saturating_sub(*bits), max(p, 1) as UBits)), Some(p))
                 ),
                 GT::Fixed(..)               => Ok(GT::Fixed(None, None)),
                 _ => Err(self.clone().into()),
-- 
2.43.0


From 3c8cfbc2fae5666f2e40a2acd06fad0ab8bfa356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 23/23] fix: accept the value of a memory's entry directly
 behind the arrow

---
 src/memory/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index b051fb7..c02606b 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -186,7 +186,7 @@ fn entry<'i>(input: &'i str) -> IResult<'i, Entry> {
 fn arrow<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::Parser;
 
-    spaced(kw("=>")).parse(input)
+    spaced(op("=>")).parse(input)
 }
 
 fn ruw<'i>(input: &'i str) -> IResult<'i, super::ReadUnderWrite> {
-- 
2.43.0

