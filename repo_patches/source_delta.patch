From 79c1b0ddbb9f4bc43d05d326363cc2d325848263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 01/16] fix: refuse numerals that are not finite instead of
 panicking

---
 src/parsers/number.rs | 4 ++--
 src/types/number.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..243bc33 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From e5c21ad49ecf4fc9c3884af212213cdd30db64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 02/16] fix: make equality and partial order of numbers agree
 with their order and hash

---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From b2d6d9cd21c8ad232aacb45c41748d0ddfa655a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 03/16] fix: compare and hash names by their text, not by how
 they are stored

---
 src/types/name.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..f823b56 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,20 @@ impl Deref for NameVariant {
     }
 }
 
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for NameVariant {}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 68efb32efff9dcbd5d9a355d570a40e4a9cd2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 04/16] fix: read type names that begin with 'object' as a
 whole

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From 69d2eb297e2004326f3a8891da1aa6bab686fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 05/16] fix: accept empty comments and any number of
 consecutive comments

---
 src/parsers/comments.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..36212e3 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,7 +1,8 @@
 use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
 use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0_count;
+use nom::sequence::terminated;
 use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 
 /// Parses a comment and swallows trailing whitespace / newline.
@@ -34,9 +35,9 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
+        many0_count(terminated(
+            pair(char(';'), opt(is_not("\r\n"))),
+            multispace0,
         )),
     )(input.into())
 }
-- 
2.43.0


From f87c35d8d3dac5d1539d24db3de4b34d3af2fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 06/16] fix: let whitespace and comments stand anywhere between
 tokens, and be left out before '('

---
 src/parsers/action_def.rs                 | 14 +++----
 src/parsers/c_effect.rs                   |  7 ++--
 src/parsers/con_gd.rs                     | 23 ++++++------
 src/parsers/da_def.rs                     | 19 +++++-----
 src/parsers/da_effect.rs                  |  9 +++--
 src/parsers/da_gd.rs                      |  7 ++--
 src/parsers/derived_predicate.rs          |  8 +---
 src/parsers/domain.rs                     | 19 +++++-----
 src/parsers/f_assign_da.rs                |  7 ++--
 src/parsers/f_comp.rs                     |  7 ++--
 src/parsers/f_exp.rs                      | 12 +++---
 src/parsers/f_exp_da.rs                   | 12 +++---
 src/parsers/f_exp_t.rs                    |  7 ++--
 src/parsers/f_head.rs                     |  5 +--
 src/parsers/gd.rs                         |  9 ++---
 src/parsers/init_el.rs                    | 13 +++----
 src/parsers/metric_f_exp.rs               | 12 +++---
 src/parsers/metric_spec.rs                | 10 ++---
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   | 11 +++---
 src/parsers/pre_gd.rs                     |  7 ++--
 src/parsers/pref_con_gd.rs                |  9 ++---
 src/parsers/pref_gd.rs                    |  5 +--
 src/parsers/pref_timed_gd.rs              |  8 +---
 src/parsers/problem.rs                    | 19 +++++-----
 src/parsers/simple_duration_constraint.rs |  7 ++--
 src/parsers/timed_effect.rs               | 17 +++------
 src/parsers/timed_gd.rs                   |  7 ++--
 src/parsers/utilities.rs                  | 46 +++++++++++++++++------
 29 files changed, 162 insertions(+), 176 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..8b5787d 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for action definitions.
 
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ws, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ws, ParseResult, Span};
 use crate::parsers::{parse_action_symbol, parse_effect, parse_pre_gd, parse_variable};
 use crate::types::ActionDefinition;
 
@@ -55,22 +54,19 @@ use crate::types::ActionDefinition;
 pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ActionDefinition> {
     let precondition = preceded(
         tag(":precondition"),
-        preceded(multispace1, empty_or(parse_pre_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_effect)),
+        preceded(separator, empty_or(parse_pre_gd)),
     );
+    let effect = preceded(tag(":effect"), preceded(separator, empty_or(parse_effect)));
     let action_def_body = tuple((opt(ws(precondition)), opt(ws(effect))));
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
     let action_def = prefix_expr(
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..48cb6bf 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for c-effects.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{parse_cond_effect, parse_effect, parse_gd, parse_p_effect, parse_variable};
 use crate::types::CEffect;
 use crate::{ForallCEffect, WhenCEffect};
@@ -130,7 +129,7 @@ pub fn parse_forall_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a,
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_effect),
+                preceded(separator, parse_effect),
             )),
         ),
         ForallCEffect::from,
@@ -186,7 +185,7 @@ pub fn parse_when_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, W
     map(
         prefix_expr(
             "when",
-            tuple((parse_gd, preceded(multispace1, parse_cond_effect))),
+            tuple((parse_gd, preceded(separator, parse_cond_effect))),
         ),
         WhenCEffect::from,
     )(input.into())
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..69f8077 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    parens, parse_gd, parse_number, parse_variable, prefix_expr, separator, space_separated_list0,
+    typed_list, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -168,7 +167,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_con_gd),
+                preceded(separator, parse_con_gd),
             )),
         ),
         |(vars, gd)| ConGD::new_forall(vars, gd),
@@ -183,7 +182,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let within = map(
         prefix_expr(
             "within",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(num, gd)| ConGD::new_within(num, gd),
     );
@@ -196,7 +195,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_after = map(
         prefix_expr(
             "sometime-after",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_after(a, b),
     );
@@ -204,7 +203,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_before = map(
         prefix_expr(
             "sometime-before",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_before(a, b),
     );
@@ -214,8 +213,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "always-within",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_con2_gd),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(num, a, b)| ConGD::new_always_within(num, a, b),
@@ -226,8 +225,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "hold-during",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_number),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_number),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),
@@ -236,7 +235,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let hold_after = map(
         prefix_expr(
             "hold-after",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(time, gd)| ConGD::new_hold_after(time, gd),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..593e883 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for durative action definitions.
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,31 +54,31 @@ use nom::sequence::{preceded, tuple};
 pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, DurativeActionDefinition> {
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
 
     let duration = preceded(
         tag(":duration"),
-        preceded(multispace1, parse_duration_constraint),
+        preceded(separator, parse_duration_constraint),
     );
     let condition = preceded(
         tag(":condition"),
-        preceded(multispace1, empty_or(parse_da_gd)),
+        preceded(separator, empty_or(parse_da_gd)),
     );
     let effect = preceded(
         tag(":effect"),
-        preceded(multispace1, empty_or(parse_da_effect)),
+        preceded(separator, empty_or(parse_da_effect)),
     );
 
     let da_def = prefix_expr(
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(separator, duration),
+            preceded(separator, condition),
+            preceded(separator, effect),
         )),
     );
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..8f29bc6 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action effects.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -90,7 +91,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_effect),
+                preceded(separator, parse_da_effect),
             )),
         ),
         DurativeActionEffect::from,
@@ -100,7 +101,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
     let when = map(
         prefix_expr(
             "when",
-            tuple((parse_da_gd, preceded(multispace1, parse_timed_effect))),
+            tuple((parse_da_gd, preceded(separator, parse_timed_effect))),
         ),
         DurativeActionEffect::from,
     );
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..f67660b 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action goal definitions.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -99,7 +100,7 @@ pub fn parse_da_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_gd),
+                preceded(separator, parse_da_gd),
             )),
         ),
         |(vars, gd)| DurativeActionGoalDefinition::new_forall(vars, gd),
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..096ee29 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_atomic_formula_skeleton, parse_gd};
+use crate::parsers::{parse_atomic_formula_skeleton, parse_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::DerivedPredicate;
 
@@ -31,10 +30,7 @@ pub fn parse_derived_predicate<'a, T: Into<Span<'a>>>(
     map(
         prefix_expr(
             ":derived",
-            tuple((
-                parse_atomic_formula_skeleton,
-                preceded(multispace1, parse_gd),
-            )),
+            tuple((parse_atomic_formula_skeleton, preceded(separator, parse_gd))),
         ),
         DerivedPredicate::from,
     )(input.into())
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..d5f878d 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
     parse_constants_def, parse_domain_constraints_def, parse_functions_def, parse_predicates_def,
-    parse_require_def, parse_structure_def, ParseResult, Span,
+    parse_require_def, parse_structure_def, separator, ParseResult, Span,
 };
 use crate::parsers::{parse_name, parse_types_def, prefix_expr, space_separated_list1, ws2};
 use crate::types::{
@@ -66,20 +65,20 @@ pub fn parse_domain<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Domain>
             tuple((
                 prefix_expr("domain", parse_name),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     prefix_expr(":extends", space_separated_list1(parse_name)),
                 )),
-                opt(preceded(multispace1, parse_require_def)),
+                opt(preceded(separator, parse_require_def)),
                 // :typing
-                opt(preceded(multispace1, parse_types_def)),
-                opt(preceded(multispace1, parse_constants_def)),
-                opt(preceded(multispace1, parse_predicates_def)),
+                opt(preceded(separator, parse_types_def)),
+                opt(preceded(separator, parse_constants_def)),
+                opt(preceded(separator, parse_predicates_def)),
                 // :fluents
-                opt(preceded(multispace1, parse_functions_def)),
+                opt(preceded(separator, parse_functions_def)),
                 // :constraints
-                opt(preceded(multispace1, parse_domain_constraints_def)),
+                opt(preceded(separator, parse_domain_constraints_def)),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     map(
                         space_separated_list1(parse_structure_def),
                         StructureDefs::new,
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..b935d62 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for f-assign-das.
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -18,8 +17,8 @@ pub fn parse_f_assign_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FAs
     map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_da),
         ))),
         FAssignDa::from,
     )(input.into())
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..722f63f 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_binary_comp, parse_f_exp};
 use crate::types::FComp;
 
@@ -34,8 +33,8 @@ pub fn parse_f_comp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FComp> {
     map(
         parens(tuple((
             parse_binary_comp,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         FComp::from,
     )(input.into())
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..479aa0b 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,11 +1,11 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, parse_number, separator, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
 use crate::types::FExp;
 
@@ -53,8 +53,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
     );
@@ -63,8 +63,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
+            preceded(separator, parse_f_exp),
+            preceded(separator, space_separated_list1(parse_f_exp)),
         ))),
         |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..84188e7 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,11 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -43,8 +43,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
         ))),
         |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
     );
@@ -52,8 +52,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, space_separated_list1(parse_f_exp_da)),
         ))),
         |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..180d841 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -2,12 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::prefix_expr;
-use crate::parsers::{parse_f_exp, ParseResult, Span};
+use crate::parsers::{parse_f_exp, separator, ParseResult, Span};
 use crate::types::FExpT;
 
 /// Parses an f-exp-t.
@@ -46,8 +45,8 @@ pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT>
         prefix_expr(
             "*",
             alt((
-                preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                preceded(tuple((tag("#t"), separator)), parse_f_exp),
+                terminated(parse_f_exp, tuple((separator, tag("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..e6ce15c 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for f-heads.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list0, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list0, ParseResult, Span};
 use crate::parsers::{parse_function_symbol, parse_term};
 use crate::types::FHead;
 
@@ -35,7 +34,7 @@ pub fn parse_f_head<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FHead> {
     let with_terms = map(
         parens(tuple((
             parse_function_symbol,
-            preceded(multispace1, space_separated_list0(parse_term)),
+            preceded(separator, space_separated_list0(parse_term)),
         ))),
         |(symbol, terms)| FHead::new_with_terms(symbol, terms),
     );
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..f431b5f 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, ParseResult, Span,
+    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list};
 use crate::types::GoalDefinition;
@@ -157,7 +156,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
 
     // :disjunctive-preconditions
     let imply = map(
-        prefix_expr("imply", tuple((parse_gd, preceded(multispace1, parse_gd)))),
+        prefix_expr("imply", tuple((parse_gd, preceded(separator, parse_gd)))),
         GoalDefinition::new_imply_tuple,
     );
 
@@ -167,7 +166,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "exists",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_exists_tuple,
@@ -179,7 +178,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_forall_tuple,
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..661012a 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for initial state list elements.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, ParseResult, Span,
+    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, separator,
+    ParseResult, Span,
 };
 use crate::types::InitElement;
 
@@ -60,7 +60,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_number, preceded(multispace1, literal(parse_name)))),
+            tuple((parse_number, preceded(separator, literal(parse_name)))),
         ),
         |(time, name)| InitElement::new_at(time, name),
     );
@@ -69,10 +69,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_numeric = map(
         prefix_expr(
             "=",
-            tuple((
-                parse_basic_function_term,
-                preceded(multispace1, parse_number),
-            )),
+            tuple((parse_basic_function_term, preceded(separator, parse_number))),
         ),
         |(fun, value)| InitElement::new_is_value(fun, value),
     );
@@ -81,7 +78,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_object = map(
         prefix_expr(
             "=",
-            tuple((parse_basic_function_term, preceded(multispace1, parse_name))),
+            tuple((parse_basic_function_term, preceded(separator, parse_name))),
         ),
         |(fun, name)| InitElement::new_is_object(fun, name),
     );
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..e707a8c 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -2,13 +2,13 @@
 
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -79,8 +79,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
     );
@@ -88,8 +88,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, space_separated_list1(parse_metric_f_exp)),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
     );
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index ff4be55..8f148bc 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for metric specification.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
+use crate::parsers::{
+    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
+};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -25,10 +26,7 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((
-                parse_optimization,
-                preceded(multispace1, parse_metric_f_exp),
-            )),
+            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..1b84291 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..9f9238c 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -2,13 +2,12 @@
 
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
-    ParseResult, Span,
+    separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -76,8 +75,8 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let numeric = map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),
     );
@@ -86,14 +85,14 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((multispace1, tag("undefined")))),
+            terminated(parse_function_term, tuple((separator, tag("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
     let object = map(
         prefix_expr(
             "assign",
-            tuple((parse_function_term, preceded(multispace1, parse_term))),
+            tuple((parse_function_term, preceded(separator, parse_term))),
         ),
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..71a0620 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_gd, parse_variable};
 use crate::types::PreconditionGoalDefinition;
 use crate::PreconditionGoalDefinitions;
@@ -84,7 +85,7 @@ pub fn parse_pre_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pre_gd),
+                preceded(separator, parse_pre_gd),
             )),
         ),
         |(vars, gd)| {
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..801f49a 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for preferred goal definitions.
 
 use crate::parsers::{
-    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
-    typed_list, ParseResult, Span,
+    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, separator,
+    space_separated_list0, typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -92,7 +91,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pref_con_gd),
+                preceded(separator, parse_pref_con_gd),
             )),
         ),
         |(vars, gd)| PrefConGDs::new_forall(vars, gd),
@@ -102,7 +101,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
     let named_preference = map(
         prefix_expr(
             "preference",
-            tuple((parse_pref_name, preceded(multispace1, parse_con_gd))),
+            tuple((parse_pref_name, preceded(separator, parse_con_gd))),
         ),
         |(name, gd)| PrefConGDs::new_preference(Some(name), gd),
     );
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..223dd4c 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for preference goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_gd, parse_pref_name};
+use crate::parsers::{parse_gd, parse_pref_name, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::{Preference, PreferenceGD};
 
@@ -62,7 +61,7 @@ pub fn parse_pref_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Prefere
     let pref_named = map(
         prefix_expr(
             "preference",
-            tuple((opt(parse_pref_name), preceded(multispace1, parse_gd))),
+            tuple((opt(parse_pref_name), preceded(separator, parse_gd))),
         ),
         |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
     );
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..4f90f97 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
-use crate::parsers::{parse_pref_name, parse_timed_gd};
+use crate::parsers::{parse_pref_name, parse_timed_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::PrefTimedGD;
 
@@ -67,10 +66,7 @@ pub fn parse_pref_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, P
     let preference = map(
         prefix_expr(
             "preference",
-            tuple((
-                opt(terminated(parse_pref_name, multispace1)),
-                parse_timed_gd,
-            )),
+            tuple((opt(terminated(parse_pref_name, separator)), parse_timed_gd)),
         ),
         PrefTimedGD::from,
     );
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..a3abc91 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_name, prefix_expr, ws2, ParseResult, Span};
+use crate::parsers::{parse_name, prefix_expr, separator, ws2, ParseResult, Span};
 use crate::parsers::{
     parse_problem_constraints_def, parse_problem_goal_def, parse_problem_init_def,
     parse_problem_length_spec, parse_problem_metric_spec, parse_problem_objects_declaration,
@@ -42,17 +41,17 @@ pub fn parse_problem<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Problem
             "define",
             tuple((
                 prefix_expr("problem", parse_name),
-                preceded(multispace1, prefix_expr(":domain", parse_name)),
-                opt(preceded(multispace1, parse_require_def)),
-                opt(preceded(multispace1, parse_problem_objects_declaration)),
-                preceded(multispace1, parse_problem_init_def),
-                preceded(multispace1, parse_problem_goal_def),
+                preceded(separator, prefix_expr(":domain", parse_name)),
+                opt(preceded(separator, parse_require_def)),
+                opt(preceded(separator, parse_problem_objects_declaration)),
+                preceded(separator, parse_problem_init_def),
+                preceded(separator, parse_problem_goal_def),
                 // :constraints
-                opt(preceded(multispace1, parse_problem_constraints_def)),
+                opt(preceded(separator, parse_problem_constraints_def)),
                 // :numeric-fluents
-                opt(preceded(multispace1, parse_problem_metric_spec)),
+                opt(preceded(separator, parse_problem_metric_spec)),
                 // Deprecated since PDDL 2.1
-                opt(preceded(multispace1, parse_problem_length_spec)),
+                opt(preceded(separator, parse_problem_length_spec)),
             )),
         )),
         |(name, domain, reqs, objects, init, goal, constraints, metric, length)| {
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..c564651 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -2,11 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{parse_d_op, parse_d_value, parse_time_specifier};
 use crate::types::SimpleDurationConstraint;
 
@@ -42,7 +41,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
         parens(tuple((
             parse_d_op,
             preceded(
-                tuple((multispace1, tag("?duration"), multispace1)),
+                tuple((separator, tag("?duration"), separator)),
                 parse_d_value,
             ),
         ))),
@@ -54,7 +53,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
             "at",
             tuple((
                 parse_time_specifier,
-                preceded(multispace1, parse_simple_duration_constraint),
+                preceded(separator, parse_simple_duration_constraint),
             )),
         ),
         SimpleDurationConstraint::from,
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..5e76bab 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for timed effects.
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
     parse_time_specifier,
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,10 +54,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let cond = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_cond_effect),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_cond_effect))),
         ),
         TimedEffect::from,
     );
@@ -67,10 +63,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let fluent = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_f_assign_da),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_f_assign_da))),
         ),
         TimedEffect::from,
     );
@@ -79,8 +72,8 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let continuous = map(
         parens(tuple((
             parse_assign_op_t,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_t),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_t),
         ))),
         TimedEffect::from,
     );
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..bf35191 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for timed goal definitions.
 
-use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
+use crate::parsers::{parse_gd, parse_interval, parse_time_specifier, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,7 +41,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_time_specifier, preceded(multispace1, parse_gd))),
+            tuple((parse_time_specifier, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
@@ -50,7 +49,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let over = map(
         prefix_expr(
             "over",
-            tuple((parse_interval, preceded(multispace1, parse_gd))),
+            tuple((parse_interval, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..360fc0d 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,10 +1,11 @@
 //! Utility parsers.
 
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
+use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
-use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded};
+use nom::combinator::{map, opt, peek, value};
+use nom::sequence::{delimited, pair, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -49,22 +50,43 @@ pub fn space_separated_list0<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> Pars
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list0(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    let list = space_separated_list1(inner);
+    ws(map(opt(list), Option::unwrap_or_default))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
-pub fn space_separated_list1<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
+pub fn space_separated_list1<'a, F, O>(
+    mut inner: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list1(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    // The list combinators of nom do not allow for separators that may be empty.
+    ws(move |input| {
+        let (mut remainder, first) = inner(input)?;
+        let mut items = vec![first];
+        loop {
+            match preceded(separator, &mut inner)(remainder) {
+                Ok((rest, item)) if rest.len() < remainder.len() => {
+                    items.push(item);
+                    remainder = rest;
+                }
+                Ok(_) | Err(nom::Err::Error(_)) => return Ok((remainder, items)),
+                Err(e) => return Err(e),
+            }
+        }
+    })
+}
+
+/// A combinator that consumes whatever separates two elements, i.e. at least one whitespace
+/// or line comment. A separator may be left out in front of an opening parenthesis.
+pub fn separator(input: Span) -> ParseResult<()> {
+    alt((
+        value((), pair(multispace1, ignore_eol_comment)),
+        value((), pair(peek(char(';')), ignore_eol_comment)),
+        value((), peek(char('('))),
+    ))(input)
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that consumes
@@ -75,7 +97,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From 580348febfa03904bbaf072961aa5616c66bc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 07/16] fix: accept whitespace and comments inside '(=', '()'
 and before the end of a function term

---
 src/parsers/atomic_formula.rs      |  5 ++---
 src/parsers/duration_constraint.rs |  7 ++++---
 src/parsers/empty_or.rs            | 12 +++++++++---
 src/parsers/function_term.rs       |  4 ++--
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..bc744b5 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -4,10 +4,9 @@ use crate::parsers::{parens, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
 use crate::types::AtomicFormula;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::{delimited, pair, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
 ///
@@ -31,7 +30,7 @@ where
 {
     let equality = map(
         delimited(
-            ws(tag("(=")),
+            pair(ws(char('(')), ws(char('='))),
             tuple((ws(inner.clone()), ws(inner.clone()))),
             ws(char(')')),
         ),
diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..5b069c2 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for duration constraints.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
+use nom::character::complete::char;
 use nom::combinator::map;
+use nom::sequence::pair;
 
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
+use crate::parsers::{prefix_expr, space_separated_list1, ws};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +61,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(pair(char('('), ws(char(')'))), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..5034a0b 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -1,9 +1,12 @@
 //! Provides the [`empty_or`] parser combinator.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::combinator::map;
+use nom::bytes::complete::is_not;
+use nom::character::complete::{char, multispace1};
+use nom::combinator::{map, opt, recognize};
 use nom::error::ParseError;
+use nom::multi::many0_count;
+use nom::sequence::{delimited, pair};
 
 use crate::parsers::{ParseResult, Span};
 
@@ -26,7 +29,10 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    // Whitespace and line comments are allowed between the parentheses.
+    let comment = recognize(pair(char(';'), opt(is_not("\r\n"))));
+    let gap = many0_count(alt((multispace1, comment)));
+    let empty_parser = map(delimited(char('('), gap, char(')')), |_| None);
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
-- 
2.43.0


From 7c9f8d9b05a45b154a36ace17c2cd7e48c8a6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 08/16] fix: read 'at end' as two tokens in trajectory
 constraints

---
 src/parsers/con_gd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 69f8077..a1fdaae 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -6,8 +6,9 @@ use crate::parsers::{
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{pair, preceded, tuple};
 
 /// Parses conditional goal definitions.
 ///
@@ -173,7 +174,10 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(pair(tag("end"), separator), parse_gd)),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From 3abd7289b3f1916a5c4275c9f3d139401bbc5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 09/16] fix: accept whitespace and comments between '(' and the
 keyword that follows it

---
 src/parsers/utilities.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 360fc0d..091eac0 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -14,7 +14,11 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(tag(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
-- 
2.43.0


From 18222ad5993a1a0ae851e1a2ad8dc5d3bce289ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 10/16] fix: recognize keywords as whole words only

---
 src/parsers/f_exp_da.rs     |  5 ++---
 src/parsers/metric_f_exp.rs |  5 ++---
 src/parsers/mod.rs          |  2 +-
 src/parsers/utilities.rs    | 17 ++++++++++++++---
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 84188e7..a84d7f5 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for f-exp-da values..
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, separator, space_separated_list1, ParseResult, Span};
+use crate::parsers::{keyword, parens, separator, space_separated_list1, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -38,7 +37,7 @@ use crate::types::FExpDa;
 ///```
 pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa> {
     // :duration-inequalities
-    let duration = map(tag("?duration"), |_| FExpDa::new_duration());
+    let duration = map(keyword("?duration"), |_| FExpDa::new_duration());
 
     let binary_op = map(
         parens(tuple((
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index e707a8c..da7c1f3 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -115,7 +114,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 1b84291..6f80ae9 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 091eac0..656e445 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,11 +1,12 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
-use nom::combinator::{map, opt, peek, value};
-use nom::sequence::{delimited, pair, preceded};
+use nom::combinator::{map, not, opt, peek, value, verify};
+use nom::sequence::{delimited, pair, preceded, terminated};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -15,12 +16,22 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     delimited(
-        preceded(ws(tag("(")), ws(tag(name))),
+        preceded(ws(tag("(")), ws(keyword(name))),
         ws(inner),
         ws(tag(")")),
     )
 }
 
+/// A combinator that consumes the keyword or operator `name`. A keyword must not be continued
+/// by the characters that follow, i.e. it is not recognized at the start of a longer name.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    let is_word = name.ends_with(|c: char| c.is_ascii_alphanumeric());
+    terminated(
+        tag(name),
+        not(verify(parse_any_char, move |_: &Span| is_word)),
+    )
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
 /// returning the output of `inner`.
 ///
-- 
2.43.0


From 0fd9d58aa3d4cce561656eb6c49987c2658364f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 11/16] fix: read a trajectory constraint inside another one as
 a constraint, not as a predicate

---
 src/parsers/con_gd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index a1fdaae..7956fad 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -265,7 +265,9 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    // A nested constraint such as `(always (p))` would also read as an atomic formula
+    // of the predicate `always`, so it has to be tried first.
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From b865424b27365570552bd36c1770bd341ef01ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 12/16] fix: read the operands of an arithmetic operation only
 once instead of once per possible form

---
 src/parsers/f_exp.rs        | 33 ++++++-------------------------
 src/parsers/f_exp_da.rs     | 31 ++++++-----------------------
 src/parsers/metric_f_exp.rs | 39 ++++++++-----------------------------
 src/parsers/mod.rs          |  3 ++-
 src/parsers/utilities.rs    | 38 +++++++++++++++++++++++++++++++++---
 5 files changed, 57 insertions(+), 87 deletions(-)

diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index 479aa0b..960ae55 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,12 +1,9 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, separator, space_separated_list1, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
+use crate::parsers::{operation, parse_f_head, parse_number, ParseResult, Span};
 use crate::types::FExp;
 
 /// Parses an f-exp.
@@ -50,35 +47,17 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let number = map(parse_number, FExp::new_number);
 
     // :numeric-fluents
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, parse_f_exp),
-        ))),
-        |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, space_separated_list1(parse_f_exp)),
-        ))),
-        |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
+    let operation = operation(
+        parse_f_exp,
         FExp::new_negative,
+        FExp::new_binary_op,
+        FExp::new_multi_op,
     );
 
     // :numeric-fluents
     let f_head = map(parse_f_head, FExp::new_function);
 
-    alt((number, binary_op, multi_op, negated, f_head))(input.into())
+    alt((number, operation, f_head))(input.into())
 }
 
 impl crate::parsers::Parser for FExp {
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index a84d7f5..03fc51e 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,12 +1,9 @@
 //! Provides parsers for f-exp-da values..
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{keyword, parens, separator, space_separated_list1, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
+use crate::parsers::{keyword, operation, parse_f_exp, ParseResult, Span};
 use crate::types::FExpDa;
 
 /// Parses an f-exp-da.
@@ -39,32 +36,16 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     // :duration-inequalities
     let duration = map(keyword("?duration"), |_| FExpDa::new_duration());
 
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, parse_f_exp_da),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, space_separated_list1(parse_f_exp_da)),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
+    let operation = operation(
+        parse_f_exp_da,
         FExpDa::new_negative,
+        FExpDa::new_binary_op,
+        FExpDa::new_multi_op,
     );
 
     let f_exp = map(parse_f_exp, FExpDa::new_f_exp);
 
-    alt((duration, binary_op, multi_op, negated, f_exp))(input.into())
+    alt((duration, operation, f_exp))(input.into())
 }
 
 impl crate::parsers::Parser for FExpDa {
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index da7c1f3..439f808 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,15 +1,13 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    keyword, operation, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name,
+    prefix_expr, space_separated_list0, ws, ParseResult, Span,
 };
-use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::tuple;
 
 /// Parses a metric f-exp.
 ///
@@ -75,30 +73,11 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, parse_metric_f_exp),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, space_separated_list1(parse_metric_f_exp)),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
+    let operation = operation(
+        parse_metric_f_exp,
         MetricFExp::new_negative,
+        MetricFExp::new_binary_op,
+        MetricFExp::new_multi_op,
     );
 
     let number = map(parse_number, MetricFExp::new_number);
@@ -124,9 +103,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
 
     alt((
         number,
-        binary_op,
-        multi_op,
-        negated,
+        operation,
         total_time,
         is_violated,
         complex_function,
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6f80ae9..eced8d1 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,8 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    keyword, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, operation, parens, prefix_expr, separator, space_separated_list0,
+    space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 656e445..ed7bb39 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,12 +1,13 @@
 //! Utility parsers.
 
 use crate::parsers::name::parse_any_char;
-use crate::parsers::{ignore_eol_comment, ParseResult, Span};
+use crate::parsers::{ignore_eol_comment, parse_binary_op, ParseResult, Span};
+use crate::types::{BinaryOp, MultiOp};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
-use nom::combinator::{map, not, opt, peek, value, verify};
-use nom::sequence::{delimited, pair, preceded, terminated};
+use nom::combinator::{map, map_opt, not, opt, peek, value, verify};
+use nom::sequence::{delimited, pair, preceded, terminated, tuple};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -94,6 +95,37 @@ where
     })
 }
 
+/// A combinator that takes a parser `operand` and produces a parser that consumes an arithmetic
+/// operation on one or more operands, i.e. `(- o)`, `(<binary-op> o o)` or `(<multi-op> o o o⁺)`.
+/// The form is selected after all operands are read so that no operand is ever read twice.
+pub fn operation<'a, F, O>(
+    operand: F,
+    negative: fn(O) -> O,
+    binary: fn(BinaryOp, O, O) -> O,
+    multi: fn(MultiOp, O, Vec<O>) -> O,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, O>
+where
+    F: FnMut(Span<'a>) -> ParseResult<'a, O>,
+{
+    let terms = parens(tuple((
+        parse_binary_op,
+        opt(separator),
+        space_separated_list1(operand),
+    )));
+    map_opt(terms, move |(op, separator, operands)| {
+        let count = operands.len();
+        let mut operands = operands.into_iter();
+        let first = operands.next()?;
+        match (op, separator, count) {
+            // The minus sign may directly precede its operand.
+            (BinaryOp::Subtraction, _, 1) => Some(negative(first)),
+            (op, Some(()), 2) => Some(binary(op, first, operands.next()?)),
+            (op, Some(()), 3..) => Some(multi(op.try_into().ok()?, first, operands.collect())),
+            _ => None,
+        }
+    })
+}
+
 /// A combinator that consumes whatever separates two elements, i.e. at least one whitespace
 /// or line comment. A separator may be left out in front of an opening parenthesis.
 pub fn separator(input: Span) -> ParseResult<()> {
-- 
2.43.0


From f7d74395ebc5a3c47ed49345fbdd329e517ef8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 13/16] fix: read '(at start (assign f undefined))' as making
 the object fluent undefined

---
 src/parsers/p_effect.rs     | 20 ++++++++++++--------
 src/parsers/timed_effect.rs | 21 +++++++++++++++++++--
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 9f9238c..ca6f9a5 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -82,13 +82,6 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     );
 
     // :object-fluents
-    let object_undefined = map(
-        prefix_expr(
-            "assign",
-            terminated(parse_function_term, tuple((separator, tag("undefined")))),
-        ),
-        |f_term| PEffect::new_object_fluent(f_term, None),
-    );
     let object = map(
         prefix_expr(
             "assign",
@@ -97,7 +90,18 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
 
-    alt((is_not, object_undefined, object, numeric, is))(input.into())
+    alt((is_not, parse_undefine_effect, object, numeric, is))(input.into())
+}
+
+/// Parses an effect that makes an object fluent undefined, i.e. `(assign <function-term> undefined)`.
+pub(crate) fn parse_undefine_effect(input: Span) -> ParseResult<PEffect> {
+    map(
+        prefix_expr(
+            "assign",
+            terminated(parse_function_term, tuple((separator, tag("undefined")))),
+        ),
+        |f_term| PEffect::new_object_fluent(f_term, None),
+    )(input)
 }
 
 impl crate::parsers::Parser for PEffect {
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 5e76bab..4040b88 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for timed effects.
 
+use crate::parsers::p_effect::parse_undefine_effect;
 use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
     parse_time_specifier,
 };
-use crate::types::TimedEffect;
+use crate::types::{ConditionalEffect, TimedEffect};
 use nom::branch::alt;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -59,6 +60,22 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
         TimedEffect::from,
     );
 
+    // :object-fluents
+    // The value `undefined` would also read as a numeric function, so it has to be tried first.
+    let undefine = map(
+        prefix_expr(
+            "at",
+            tuple((
+                parse_time_specifier,
+                preceded(
+                    separator,
+                    map(parse_undefine_effect, ConditionalEffect::from),
+                ),
+            )),
+        ),
+        TimedEffect::from,
+    );
+
     // :numeric-fluents
     let fluent = map(
         prefix_expr(
@@ -78,7 +95,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
         TimedEffect::from,
     );
 
-    alt((fluent, cond, continuous))(input.into())
+    alt((undefine, fluent, cond, continuous))(input.into())
 }
 
 impl crate::parsers::Parser for TimedEffect {
-- 
2.43.0


From 7386caa704bd154e78a70263b44523c5c45f5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 14/16] fix: build the types without the parser feature

---
 src/types/assign_op.rs      | 13 +++++++++++--
 src/types/assign_op_t.rs    | 13 +++++++++++--
 src/types/binary_comp.rs    | 13 +++++++++++--
 src/types/binary_op.rs      | 26 ++++++++++++++++++++++----
 src/types/d_op.rs           | 13 +++++++++++--
 src/types/interval.rs       | 13 +++++++++++--
 src/types/multi_op.rs       | 13 +++++++++++--
 src/types/optimization.rs   | 13 +++++++++++--
 src/types/requirement.rs    | 13 +++++++++++--
 src/types/time_specifier.rs | 13 +++++++++++--
 10 files changed, 121 insertions(+), 22 deletions(-)

diff --git a/src/types/assign_op.rs b/src/types/assign_op.rs
index 77ba8bf..0ce0e64 100644
--- a/src/types/assign_op.rs
+++ b/src/types/assign_op.rs
@@ -108,12 +108,21 @@ impl TryFrom<&str> for AssignOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for AssignOp {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/assign_op_t.rs b/src/types/assign_op_t.rs
index 47b4335..ddc5cda 100644
--- a/src/types/assign_op_t.rs
+++ b/src/types/assign_op_t.rs
@@ -38,8 +38,17 @@ impl TryFrom<&str> for AssignOpT {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_comp.rs b/src/types/binary_comp.rs
index cec53c4..24bd764 100644
--- a/src/types/binary_comp.rs
+++ b/src/types/binary_comp.rs
@@ -50,8 +50,17 @@ impl TryFrom<&str> for BinaryComp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_op.rs b/src/types/binary_op.rs
index aef42b7..ebc0c72 100644
--- a/src/types/binary_op.rs
+++ b/src/types/binary_op.rs
@@ -68,14 +68,32 @@ impl TryFrom<BinaryOp> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
+#[derive(Debug, Clone)]
 pub enum TryFromError {
-    #[error("Operation is not a MultiOp")]
     NotAMultiOp,
 }
+
+impl Display for TryFromError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::NotAMultiOp => write!(f, "Operation is not a MultiOp"),
+        }
+    }
+}
+
+impl std::error::Error for TryFromError {}
diff --git a/src/types/d_op.rs b/src/types/d_op.rs
index c768b84..50617ca 100644
--- a/src/types/d_op.rs
+++ b/src/types/d_op.rs
@@ -44,8 +44,17 @@ impl TryFrom<&str> for DOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/interval.rs b/src/types/interval.rs
index 65fd2e7..4ba8ed7 100644
--- a/src/types/interval.rs
+++ b/src/types/interval.rs
@@ -35,8 +35,17 @@ impl TryFrom<&str> for Interval {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid interval")]
     InvalidInterval,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidInterval => write!(f, "Invalid interval"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/multi_op.rs b/src/types/multi_op.rs
index 1256948..0b59b6c 100644
--- a/src/types/multi_op.rs
+++ b/src/types/multi_op.rs
@@ -39,8 +39,17 @@ impl TryFrom<&str> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/optimization.rs b/src/types/optimization.rs
index d053aac..c32ef31 100644
--- a/src/types/optimization.rs
+++ b/src/types/optimization.rs
@@ -43,8 +43,17 @@ impl TryFrom<&str> for Optimization {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid goal")]
     InvalidGoal,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidGoal => write!(f, "Invalid goal"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..98fdb21 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -242,12 +242,21 @@ impl TryFrom<&str> for Requirement {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid requirement")]
     InvalidRequirement,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidRequirement => write!(f, "Invalid requirement"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for Requirement {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/time_specifier.rs b/src/types/time_specifier.rs
index 4ee9026..3d36743 100644
--- a/src/types/time_specifier.rs
+++ b/src/types/time_specifier.rs
@@ -40,8 +40,17 @@ impl TryFrom<&str> for TimeSpecifier {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid specifier")]
     InvalidSpecifier,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::InvalidSpecifier => write!(f, "Invalid specifier"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
-- 
2.43.0


From a1d8a53b4cf6f51ac9031befbbf43cfa29d39f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 15/16] fix: let :adl contain all the requirements it expands
 to

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 98fdb21..61b81f1 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -146,7 +146,10 @@ impl Requirement {
                     || other == Self::NegativePreconditions
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From 12b96c248a8bfeb98fa5d637dcd8b6ce68089c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 16/16] fix: leave the metric specification's parser as it was

---
 src/parsers/metric_spec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index 8f148bc..ff4be55 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for metric specification.
 
+use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{
-    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
-};
+use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -26,7 +25,10 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
+            tuple((
+                parse_optimization,
+                preceded(multispace1, parse_metric_f_exp),
+            )),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
-- 
2.43.0

