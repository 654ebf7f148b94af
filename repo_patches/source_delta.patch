From e5df92db1ede16d9904490b3b3e56ab88ef8594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 01/18] fix: accept empty comments and skip comment lines
 iteratively

A comment without text (";" directly followed by a line break) was not
recognised, and every comment line cost one level of recursion.
---
 src/parsers/comments.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..ef4250c 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,8 +1,9 @@
 use crate::parsers::{ParseResult, Span};
+use nom::bytes::complete::take_till;
 use nom::character::complete::{char, multispace0};
-use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
-use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
+use nom::combinator::value;
+use nom::multi::many0_count;
+use nom::sequence::tuple;
 
 /// Parses a comment and swallows trailing whitespace / newline.
 ///
@@ -34,10 +35,11 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
-        )),
+        many0_count(tuple((
+            char(';'),
+            take_till(|c| c == '\r' || c == '\n'), // The comment text may be empty.
+            multispace0,
+        ))),
     )(input.into())
 }
 
-- 
2.43.0


From 7339d31b6d8affb813ce0bfd33999b6c478813fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 02/18] fix: accept layout between any two tokens and none next
 to parentheses

Comments in place of whitespace, whitespace before a closing parenthesis and
adjacent parentheses made valid descriptions fail to parse.
---
 src/parsers/action_def.rs                 | 14 ++----
 src/parsers/atomic_formula.rs             | 14 +++---
 src/parsers/c_effect.rs                   |  7 ++-
 src/parsers/comments.rs                   |  8 ++-
 src/parsers/con_gd.rs                     | 29 ++++++-----
 src/parsers/da_def.rs                     | 19 ++++---
 src/parsers/da_effect.rs                  |  9 ++--
 src/parsers/da_gd.rs                      |  7 +--
 src/parsers/derived_predicate.rs          |  8 +--
 src/parsers/domain.rs                     | 19 ++++---
 src/parsers/duration_constraint.rs        |  5 +-
 src/parsers/empty_or.rs                   |  7 +--
 src/parsers/f_assign_da.rs                |  7 ++-
 src/parsers/f_comp.rs                     |  7 ++-
 src/parsers/f_exp.rs                      | 16 +++---
 src/parsers/f_exp_da.rs                   | 14 +++---
 src/parsers/f_exp_t.rs                    |  7 ++-
 src/parsers/f_head.rs                     |  5 +-
 src/parsers/function_term.rs              | 14 +++---
 src/parsers/gd.rs                         |  9 ++--
 src/parsers/init_el.rs                    | 13 ++---
 src/parsers/length_spec.rs                | 10 ++--
 src/parsers/metric_f_exp.rs               | 17 +++----
 src/parsers/metric_spec.rs                | 10 ++--
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   | 11 ++--
 src/parsers/pre_gd.rs                     |  7 +--
 src/parsers/pref_con_gd.rs                |  9 ++--
 src/parsers/pref_gd.rs                    |  5 +-
 src/parsers/pref_timed_gd.rs              |  8 +--
 src/parsers/problem.rs                    | 19 ++++---
 src/parsers/simple_duration_constraint.rs |  7 ++-
 src/parsers/timed_effect.rs               | 17 ++-----
 src/parsers/timed_gd.rs                   |  7 ++-
 src/parsers/utilities.rs                  | 61 ++++++++++++++++-------
 35 files changed, 209 insertions(+), 219 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..8b5787d 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for action definitions.
 
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ws, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ws, ParseResult, Span};
 use crate::parsers::{parse_action_symbol, parse_effect, parse_pre_gd, parse_variable};
 use crate::types::ActionDefinition;
 
@@ -55,22 +54,19 @@ use crate::types::ActionDefinition;
 pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ActionDefinition> {
     let precondition = preceded(
         tag(":precondition"),
-        preceded(multispace1, empty_or(parse_pre_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_effect)),
+        preceded(separator, empty_or(parse_pre_gd)),
     );
+    let effect = preceded(tag(":effect"), preceded(separator, empty_or(parse_effect)));
     let action_def_body = tuple((opt(ws(precondition)), opt(ws(effect))));
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
     let action_def = prefix_expr(
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..0496196 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for atomic formulae.
 
-use crate::parsers::{parens, space_separated_list0, ws};
+use crate::parsers::{parens, separator, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
 use crate::types::AtomicFormula;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::{preceded, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
 ///
@@ -30,11 +29,10 @@ where
     F: Clone + FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     let equality = map(
-        delimited(
-            ws(tag("(=")),
-            tuple((ws(inner.clone()), ws(inner.clone()))),
-            ws(char(')')),
-        ),
+        ws(parens(preceded(
+            tag("="),
+            tuple((ws(inner.clone()), preceded(separator, inner.clone()))),
+        ))),
         |tuple| AtomicFormula::Equality(tuple.into()),
     );
 
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..48cb6bf 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for c-effects.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{parse_cond_effect, parse_effect, parse_gd, parse_p_effect, parse_variable};
 use crate::types::CEffect;
 use crate::{ForallCEffect, WhenCEffect};
@@ -130,7 +129,7 @@ pub fn parse_forall_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a,
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_effect),
+                preceded(separator, parse_effect),
             )),
         ),
         ForallCEffect::from,
@@ -186,7 +185,7 @@ pub fn parse_when_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, W
     map(
         prefix_expr(
             "when",
-            tuple((parse_gd, preceded(multispace1, parse_cond_effect))),
+            tuple((parse_gd, preceded(separator, parse_cond_effect))),
         ),
         WhenCEffect::from,
     )(input.into())
diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ef4250c..0065fac 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -2,6 +2,7 @@ use crate::parsers::{ParseResult, Span};
 use nom::bytes::complete::take_till;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::value;
+use nom::error::ParseError;
 use nom::multi::many0_count;
 use nom::sequence::tuple;
 
@@ -33,6 +34,11 @@ use nom::sequence::tuple;
 /// assert_eq!(remainder.to_ascii_lowercase().trim(), "then more");
 /// ```
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
+    eol_comments(input.into())
+}
+
+/// See [`ignore_eol_comment`]; generic in the error type.
+pub(crate) fn eol_comments<'a, E: ParseError<Span<'a>>>(input: Span<'a>) -> ParseResult<'a, (), E> {
     value(
         (), // Output is thrown away.
         many0_count(tuple((
@@ -40,7 +46,7 @@ pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()
             take_till(|c| c == '\r' || c == '\n'), // The comment text may be empty.
             multispace0,
         ))),
-    )(input.into())
+    )(input)
 }
 
 #[cfg(test)]
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..9886eb9 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    parens, parse_gd, parse_number, parse_variable, prefix_expr, separator, space_separated_list0,
+    typed_list, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
+use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -168,13 +168,16 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_con_gd),
+                preceded(separator, parse_con_gd),
             )),
         ),
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(tuple((tag("end"), separator)), parse_gd)),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
@@ -183,7 +186,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let within = map(
         prefix_expr(
             "within",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(num, gd)| ConGD::new_within(num, gd),
     );
@@ -196,7 +199,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_after = map(
         prefix_expr(
             "sometime-after",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_after(a, b),
     );
@@ -204,7 +207,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_before = map(
         prefix_expr(
             "sometime-before",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_before(a, b),
     );
@@ -214,8 +217,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "always-within",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_con2_gd),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(num, a, b)| ConGD::new_always_within(num, a, b),
@@ -226,8 +229,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "hold-during",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_number),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_number),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),
@@ -236,7 +239,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let hold_after = map(
         prefix_expr(
             "hold-after",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(time, gd)| ConGD::new_hold_after(time, gd),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..593e883 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for durative action definitions.
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,31 +54,31 @@ use nom::sequence::{preceded, tuple};
 pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, DurativeActionDefinition> {
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
 
     let duration = preceded(
         tag(":duration"),
-        preceded(multispace1, parse_duration_constraint),
+        preceded(separator, parse_duration_constraint),
     );
     let condition = preceded(
         tag(":condition"),
-        preceded(multispace1, empty_or(parse_da_gd)),
+        preceded(separator, empty_or(parse_da_gd)),
     );
     let effect = preceded(
         tag(":effect"),
-        preceded(multispace1, empty_or(parse_da_effect)),
+        preceded(separator, empty_or(parse_da_effect)),
     );
 
     let da_def = prefix_expr(
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(separator, duration),
+            preceded(separator, condition),
+            preceded(separator, effect),
         )),
     );
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..8f29bc6 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action effects.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -90,7 +91,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_effect),
+                preceded(separator, parse_da_effect),
             )),
         ),
         DurativeActionEffect::from,
@@ -100,7 +101,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
     let when = map(
         prefix_expr(
             "when",
-            tuple((parse_da_gd, preceded(multispace1, parse_timed_effect))),
+            tuple((parse_da_gd, preceded(separator, parse_timed_effect))),
         ),
         DurativeActionEffect::from,
     );
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..f67660b 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action goal definitions.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -99,7 +100,7 @@ pub fn parse_da_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_gd),
+                preceded(separator, parse_da_gd),
             )),
         ),
         |(vars, gd)| DurativeActionGoalDefinition::new_forall(vars, gd),
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..096ee29 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_atomic_formula_skeleton, parse_gd};
+use crate::parsers::{parse_atomic_formula_skeleton, parse_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::DerivedPredicate;
 
@@ -31,10 +30,7 @@ pub fn parse_derived_predicate<'a, T: Into<Span<'a>>>(
     map(
         prefix_expr(
             ":derived",
-            tuple((
-                parse_atomic_formula_skeleton,
-                preceded(multispace1, parse_gd),
-            )),
+            tuple((parse_atomic_formula_skeleton, preceded(separator, parse_gd))),
         ),
         DerivedPredicate::from,
     )(input.into())
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..d5f878d 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
     parse_constants_def, parse_domain_constraints_def, parse_functions_def, parse_predicates_def,
-    parse_require_def, parse_structure_def, ParseResult, Span,
+    parse_require_def, parse_structure_def, separator, ParseResult, Span,
 };
 use crate::parsers::{parse_name, parse_types_def, prefix_expr, space_separated_list1, ws2};
 use crate::types::{
@@ -66,20 +65,20 @@ pub fn parse_domain<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Domain>
             tuple((
                 prefix_expr("domain", parse_name),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     prefix_expr(":extends", space_separated_list1(parse_name)),
                 )),
-                opt(preceded(multispace1, parse_require_def)),
+                opt(preceded(separator, parse_require_def)),
                 // :typing
-                opt(preceded(multispace1, parse_types_def)),
-                opt(preceded(multispace1, parse_constants_def)),
-                opt(preceded(multispace1, parse_predicates_def)),
+                opt(preceded(separator, parse_types_def)),
+                opt(preceded(separator, parse_constants_def)),
+                opt(preceded(separator, parse_predicates_def)),
                 // :fluents
-                opt(preceded(multispace1, parse_functions_def)),
+                opt(preceded(separator, parse_functions_def)),
                 // :constraints
-                opt(preceded(multispace1, parse_domain_constraints_def)),
+                opt(preceded(separator, parse_domain_constraints_def)),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     map(
                         space_separated_list1(parse_structure_def),
                         StructureDefs::new,
diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..230ab04 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for duration constraints.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
+use crate::parsers::{layout, parens, prefix_expr, space_separated_list1};
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +59,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(parens(layout), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..2b960bb 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -1,11 +1,12 @@
 //! Provides the [`empty_or`] parser combinator.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::error::ParseError;
+use nom::sequence::tuple;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{layout, ParseResult, Span};
 
 /// Parser combinator that takes a parser `inner` and produces a parser that
 /// consumes `()` and returns [`None`] or the result of `inner` and produces [`Some(O)`](Some).
@@ -26,7 +27,7 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    let empty_parser = map(tuple((char('('), layout, char(')'))), |_| None);
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..b935d62 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for f-assign-das.
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -18,8 +17,8 @@ pub fn parse_f_assign_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FAs
     map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_da),
         ))),
         FAssignDa::from,
     )(input.into())
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..722f63f 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_binary_comp, parse_f_exp};
 use crate::types::FComp;
 
@@ -34,8 +33,8 @@ pub fn parse_f_comp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FComp> {
     map(
         parens(tuple((
             parse_binary_comp,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         FComp::from,
     )(input.into())
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..310957b 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,11 +1,13 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
+use crate::parsers::{
+    parens, parse_number, separator, space_separated_list1, ws, ParseResult, Span,
+};
 use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
 use crate::types::FExp;
 
@@ -53,8 +55,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
     );
@@ -63,15 +65,15 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
+            preceded(separator, parse_f_exp),
+            preceded(separator, space_separated_list1(parse_f_exp)),
         ))),
         |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
     );
 
     // :numeric-fluents
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
+        parens(preceded(char('-'), ws(parse_f_exp))),
         FExp::new_negative,
     );
 
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..4b8d01c 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,11 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list1, ws, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -43,8 +43,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
         ))),
         |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
     );
@@ -52,14 +52,14 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, space_separated_list1(parse_f_exp_da)),
         ))),
         |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
+        parens(preceded(char('-'), ws(parse_f_exp_da))),
         FExpDa::new_negative,
     );
 
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..180d841 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -2,12 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::prefix_expr;
-use crate::parsers::{parse_f_exp, ParseResult, Span};
+use crate::parsers::{parse_f_exp, separator, ParseResult, Span};
 use crate::types::FExpT;
 
 /// Parses an f-exp-t.
@@ -46,8 +45,8 @@ pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT>
         prefix_expr(
             "*",
             alt((
-                preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                preceded(tuple((tag("#t"), separator)), parse_f_exp),
+                terminated(parse_f_exp, tuple((separator, tag("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..e6ce15c 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for f-heads.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list0, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list0, ParseResult, Span};
 use crate::parsers::{parse_function_symbol, parse_term};
 use crate::types::FHead;
 
@@ -35,7 +34,7 @@ pub fn parse_f_head<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FHead> {
     let with_terms = map(
         parens(tuple((
             parse_function_symbol,
-            preceded(multispace1, space_separated_list0(parse_term)),
+            preceded(separator, space_separated_list0(parse_term)),
         ))),
         |(symbol, terms)| FHead::new_with_terms(symbol, terms),
     );
diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..1631ff5 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for function terms.
 
+use crate::parsers::{parens, space_separated_list0, ParseResult, Span};
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
 use crate::types::FunctionTerm;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::tuple;
 
 /// Parses a function terms, i.e. `(<function symbol> <term>*)`.
 ///
@@ -30,11 +29,10 @@ use nom::sequence::{delimited, tuple};
 ///```
 pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FunctionTerm> {
     map(
-        delimited(
-            tag("("),
-            tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
-        ),
+        parens(tuple((
+            parse_function_symbol,
+            space_separated_list0(parse_term),
+        ))),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
 }
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..f431b5f 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, ParseResult, Span,
+    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list};
 use crate::types::GoalDefinition;
@@ -157,7 +156,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
 
     // :disjunctive-preconditions
     let imply = map(
-        prefix_expr("imply", tuple((parse_gd, preceded(multispace1, parse_gd)))),
+        prefix_expr("imply", tuple((parse_gd, preceded(separator, parse_gd)))),
         GoalDefinition::new_imply_tuple,
     );
 
@@ -167,7 +166,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "exists",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_exists_tuple,
@@ -179,7 +178,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_forall_tuple,
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..661012a 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for initial state list elements.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, ParseResult, Span,
+    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, separator,
+    ParseResult, Span,
 };
 use crate::types::InitElement;
 
@@ -60,7 +60,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_number, preceded(multispace1, literal(parse_name)))),
+            tuple((parse_number, preceded(separator, literal(parse_name)))),
         ),
         |(time, name)| InitElement::new_at(time, name),
     );
@@ -69,10 +69,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_numeric = map(
         prefix_expr(
             "=",
-            tuple((
-                parse_basic_function_term,
-                preceded(multispace1, parse_number),
-            )),
+            tuple((parse_basic_function_term, preceded(separator, parse_number))),
         ),
         |(fun, value)| InitElement::new_is_value(fun, value),
     );
@@ -81,7 +78,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_object = map(
         prefix_expr(
             "=",
-            tuple((parse_basic_function_term, preceded(multispace1, parse_name))),
+            tuple((parse_basic_function_term, preceded(separator, parse_name))),
         ),
         |(fun, name)| InitElement::new_is_object(fun, name),
     );
diff --git a/src/parsers/length_spec.rs b/src/parsers/length_spec.rs
index be4ad98..2e9242c 100644
--- a/src/parsers/length_spec.rs
+++ b/src/parsers/length_spec.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for length specification.
 
-use nom::character::complete::multispace0;
 use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::tuple;
 
-use crate::parsers::{prefix_expr, ParseResult, Span};
+use crate::parsers::{prefix_expr, ws, ParseResult, Span};
 use crate::types::LengthSpec;
 
 /// Parses a length specification. Deprecated since PDDL 2.1.
@@ -21,10 +20,7 @@ use crate::types::LengthSpec;
 pub fn parse_problem_length_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, LengthSpec> {
     let serial = prefix_expr(":serial", nom::character::complete::u64);
     let parallel = prefix_expr(":parallel", nom::character::complete::u64);
-    let length = prefix_expr(
-        ":length",
-        tuple((opt(serial), opt(preceded(multispace0, parallel)))),
-    );
+    let length = prefix_expr(":length", tuple((opt(serial), opt(ws(parallel)))));
 
     map(length, |(serial, parallel)| {
         LengthSpec::new(serial, parallel)
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..575ec50 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -2,13 +2,13 @@
 
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -79,8 +79,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
     );
@@ -88,17 +88,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, space_separated_list1(parse_metric_f_exp)),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
+        parens(preceded(char('-'), ws(parse_metric_f_exp))),
         MetricFExp::new_negative,
     );
 
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index ff4be55..8f148bc 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for metric specification.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
+use crate::parsers::{
+    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
+};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -25,10 +26,7 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((
-                parse_optimization,
-                preceded(multispace1, parse_metric_f_exp),
-            )),
+            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..258dca2 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    layout, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..9f9238c 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -2,13 +2,12 @@
 
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
-    ParseResult, Span,
+    separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -76,8 +75,8 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let numeric = map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),
     );
@@ -86,14 +85,14 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((multispace1, tag("undefined")))),
+            terminated(parse_function_term, tuple((separator, tag("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
     let object = map(
         prefix_expr(
             "assign",
-            tuple((parse_function_term, preceded(multispace1, parse_term))),
+            tuple((parse_function_term, preceded(separator, parse_term))),
         ),
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..71a0620 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_gd, parse_variable};
 use crate::types::PreconditionGoalDefinition;
 use crate::PreconditionGoalDefinitions;
@@ -84,7 +85,7 @@ pub fn parse_pre_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pre_gd),
+                preceded(separator, parse_pre_gd),
             )),
         ),
         |(vars, gd)| {
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..801f49a 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for preferred goal definitions.
 
 use crate::parsers::{
-    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
-    typed_list, ParseResult, Span,
+    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, separator,
+    space_separated_list0, typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -92,7 +91,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pref_con_gd),
+                preceded(separator, parse_pref_con_gd),
             )),
         ),
         |(vars, gd)| PrefConGDs::new_forall(vars, gd),
@@ -102,7 +101,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
     let named_preference = map(
         prefix_expr(
             "preference",
-            tuple((parse_pref_name, preceded(multispace1, parse_con_gd))),
+            tuple((parse_pref_name, preceded(separator, parse_con_gd))),
         ),
         |(name, gd)| PrefConGDs::new_preference(Some(name), gd),
     );
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..223dd4c 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for preference goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_gd, parse_pref_name};
+use crate::parsers::{parse_gd, parse_pref_name, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::{Preference, PreferenceGD};
 
@@ -62,7 +61,7 @@ pub fn parse_pref_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Prefere
     let pref_named = map(
         prefix_expr(
             "preference",
-            tuple((opt(parse_pref_name), preceded(multispace1, parse_gd))),
+            tuple((opt(parse_pref_name), preceded(separator, parse_gd))),
         ),
         |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
     );
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..4f90f97 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
-use crate::parsers::{parse_pref_name, parse_timed_gd};
+use crate::parsers::{parse_pref_name, parse_timed_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::PrefTimedGD;
 
@@ -67,10 +66,7 @@ pub fn parse_pref_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, P
     let preference = map(
         prefix_expr(
             "preference",
-            tuple((
-                opt(terminated(parse_pref_name, multispace1)),
-                parse_timed_gd,
-            )),
+            tuple((opt(terminated(parse_pref_name, separator)), parse_timed_gd)),
         ),
         PrefTimedGD::from,
     );
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..a3abc91 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_name, prefix_expr, ws2, ParseResult, Span};
+use crate::parsers::{parse_name, prefix_expr, separator, ws2, ParseResult, Span};
 use crate::parsers::{
     parse_problem_constraints_def, parse_problem_goal_def, parse_problem_init_def,
     parse_problem_length_spec, parse_problem_metric_spec, parse_problem_objects_declaration,
@@ -42,17 +41,17 @@ pub fn parse_problem<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Problem
             "define",
             tuple((
                 prefix_expr("problem", parse_name),
-                preceded(multispace1, prefix_expr(":domain", parse_name)),
-                opt(preceded(multispace1, parse_require_def)),
-                opt(preceded(multispace1, parse_problem_objects_declaration)),
-                preceded(multispace1, parse_problem_init_def),
-                preceded(multispace1, parse_problem_goal_def),
+                preceded(separator, prefix_expr(":domain", parse_name)),
+                opt(preceded(separator, parse_require_def)),
+                opt(preceded(separator, parse_problem_objects_declaration)),
+                preceded(separator, parse_problem_init_def),
+                preceded(separator, parse_problem_goal_def),
                 // :constraints
-                opt(preceded(multispace1, parse_problem_constraints_def)),
+                opt(preceded(separator, parse_problem_constraints_def)),
                 // :numeric-fluents
-                opt(preceded(multispace1, parse_problem_metric_spec)),
+                opt(preceded(separator, parse_problem_metric_spec)),
                 // Deprecated since PDDL 2.1
-                opt(preceded(multispace1, parse_problem_length_spec)),
+                opt(preceded(separator, parse_problem_length_spec)),
             )),
         )),
         |(name, domain, reqs, objects, init, goal, constraints, metric, length)| {
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..c564651 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -2,11 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{parse_d_op, parse_d_value, parse_time_specifier};
 use crate::types::SimpleDurationConstraint;
 
@@ -42,7 +41,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
         parens(tuple((
             parse_d_op,
             preceded(
-                tuple((multispace1, tag("?duration"), multispace1)),
+                tuple((separator, tag("?duration"), separator)),
                 parse_d_value,
             ),
         ))),
@@ -54,7 +53,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
             "at",
             tuple((
                 parse_time_specifier,
-                preceded(multispace1, parse_simple_duration_constraint),
+                preceded(separator, parse_simple_duration_constraint),
             )),
         ),
         SimpleDurationConstraint::from,
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..5e76bab 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for timed effects.
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
     parse_time_specifier,
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,10 +54,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let cond = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_cond_effect),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_cond_effect))),
         ),
         TimedEffect::from,
     );
@@ -67,10 +63,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let fluent = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_f_assign_da),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_f_assign_da))),
         ),
         TimedEffect::from,
     );
@@ -79,8 +72,8 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let continuous = map(
         parens(tuple((
             parse_assign_op_t,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_t),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_t),
         ))),
         TimedEffect::from,
     );
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..bf35191 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for timed goal definitions.
 
-use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
+use crate::parsers::{parse_gd, parse_interval, parse_time_specifier, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,7 +41,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_time_specifier, preceded(multispace1, parse_gd))),
+            tuple((parse_time_specifier, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
@@ -50,7 +49,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let over = map(
         prefix_expr(
             "over",
-            tuple((parse_interval, preceded(multispace1, parse_gd))),
+            tuple((parse_interval, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..822ba72 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,9 +1,12 @@
 //! Utility parsers.
 
+use crate::parsers::comments::eol_comments;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
-use nom::multi::{separated_list0, separated_list1};
+use nom::character::complete::{char, multispace0};
+use nom::combinator::{map, opt};
+use nom::error::{ErrorKind, ParseError};
+use nom::multi::many0;
 use nom::sequence::{delimited, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
@@ -13,7 +16,29 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(tag(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
+}
+
+/// Consumes layout, i.e. any sequence of whitespace and line comments. May consume nothing.
+pub fn layout<'a, E: ParseError<Span<'a>>>(input: Span<'a>) -> ParseResult<'a, (), E> {
+    preceded(multispace0, eol_comments)(input)
+}
+
+/// Separates two elements: consumes whitespace and line comments, which may
+/// only be missing if the next element begins with an opening parenthesis.
+pub fn separator(input: Span) -> ParseResult<()> {
+    let (remainder, _) = layout(input)?;
+    let consumed = remainder.location_offset() > input.location_offset();
+    if consumed || remainder.starts_with('(') {
+        Ok((remainder, ()))
+    } else {
+        let error = ParseError::from_error_kind(remainder, ErrorKind::Space);
+        Err(nom::Err::Error(error))
+    }
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
@@ -24,7 +49,7 @@ pub fn ws<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, O>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    preceded(preceded(multispace0, ignore_eol_comment), inner)
+    preceded(layout, inner)
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading
@@ -35,11 +60,7 @@ pub fn ws2<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, O>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(
-        preceded(multispace0, ignore_eol_comment),
-        inner,
-        preceded(multispace0, ignore_eol_comment),
-    )
+    delimited(layout, inner, layout)
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
@@ -49,22 +70,26 @@ pub fn space_separated_list0<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> Pars
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list0(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
+    ws(map(
+        opt(space_separated_list1(inner)),
+        Option::unwrap_or_default,
     ))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
-pub fn space_separated_list1<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
+pub fn space_separated_list1<'a, F, O>(
+    mut inner: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list1(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    move |input| {
+        let (input, first) = ws(&mut inner)(input)?;
+        let (input, mut rest) = many0(preceded(separator, &mut inner))(input)?;
+        rest.insert(0, first);
+        Ok((input, rest))
+    }
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that consumes
@@ -75,7 +100,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From b5f644178c0d50fe9365e8447f55faecf2adab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 03/18] fix: do not read the beginning of a longer word as a
 keyword

(andrew x), (objects-of x) or a function named total-time-spent are not keyword
expressions; (andp q) must not be parsed as a conjunction.
---
 src/parsers/metric_f_exp.rs |  5 ++---
 src/parsers/mod.rs          |  3 ++-
 src/parsers/utilities.rs    | 14 +++++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 575ec50..4e65cbd 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -112,7 +111,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 258dca2..7437048 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,8 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    layout, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, layout, parens, prefix_expr, separator, space_separated_list0, space_separated_list1,
+    ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 822ba72..590b6ce 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,13 +1,14 @@
 //! Utility parsers.
 
 use crate::parsers::comments::eol_comments;
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{map, opt};
+use nom::combinator::{cond, map, not, opt};
 use nom::error::{ErrorKind, ParseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -17,12 +18,19 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     delimited(
-        preceded(ws(tag("(")), ws(tag(name))),
+        preceded(ws(tag("(")), ws(keyword(name))),
         ws(inner),
         ws(tag(")")),
     )
 }
 
+/// Recognizes the keyword `name`. A keyword that ends like a name must not be
+/// directly followed by more name characters.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    let is_word = name.ends_with(|c: char| c.is_ascii_alphanumeric());
+    terminated(tag(name), cond(is_word, not(parse_any_char)))
+}
+
 /// Consumes layout, i.e. any sequence of whitespace and line comments. May consume nothing.
 pub fn layout<'a, E: ParseError<Span<'a>>>(input: Span<'a>) -> ParseResult<'a, (), E> {
     preceded(multispace0, eol_comments)(input)
-- 
2.43.0


From 03f995b93049ab0095dc8a0241c9af5a126160db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 04/18] fix: keep type names that merely begin with object

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From c43bf634b85cb6d5d0cef9766831b704cab41be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 05/18] fix: reject connectives and quantifiers in the position
 of a predicate

(and p q), (or ?x) or (forall ?x (p ?x)) are malformed; they were read as atoms.
---
 src/parsers/atomic_formula.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index 0496196..a4bb15d 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -2,10 +2,10 @@
 
 use crate::parsers::{parens, separator, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
-use crate::types::AtomicFormula;
+use crate::types::{AtomicFormula, Predicate};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::map;
+use nom::combinator::{map, verify};
 use nom::sequence::{preceded, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
@@ -37,13 +37,24 @@ where
     );
 
     let predicate = map(
-        parens(tuple((parse_predicate, ws(space_separated_list0(inner))))),
+        parens(tuple((
+            verify(parse_predicate, |p| !is_reserved(p)),
+            ws(space_separated_list0(inner)),
+        ))),
         |tuple| AtomicFormula::Predicate(tuple.into()),
     );
 
     alt((equality, predicate))
 }
 
+/// Connectives, quantifiers and other keywords of conditions and effects cannot be predicates.
+fn is_reserved(predicate: &Predicate) -> bool {
+    matches!(
+        predicate.as_ref() as &str,
+        "and" | "or" | "not" | "imply" | "exists" | "forall" | "when" | "preference"
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From d940775ca81ccfb6260afaab2f34620170d8671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 06/18] fix: read nested modal operators as constraints, not as
 predicates

---
 src/parsers/con_gd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 9886eb9..9bbdb3b 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -261,11 +261,11 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
 }
 
 fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
-    let gd = map(parse_gd, Con2GD::new_goal);
-
+    // Modal operators take precedence: as a goal, they would read as predicates over functions.
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    let gd = map(parse_gd, Con2GD::new_goal);
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From 3d7111fbfbfea89d52113a82d734125f747d1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 07/18] fix: parse nested arithmetic expressions in one pass

Every alternative of an f-exp parsed the operands again, so that the effort grew
exponentially with the nesting depth.
---
 src/parsers/f_exp.rs        | 39 ++++++----------------------
 src/parsers/f_exp_da.rs     | 35 ++++++-------------------
 src/parsers/metric_f_exp.rs | 38 +++++++--------------------
 src/parsers/mod.rs          |  1 +
 src/parsers/operation.rs    | 52 +++++++++++++++++++++++++++++++++++++
 5 files changed, 78 insertions(+), 87 deletions(-)
 create mode 100644 src/parsers/operation.rs

diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index 310957b..611ee58 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,14 +1,10 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{
-    parens, parse_number, separator, space_separated_list1, ws, ParseResult, Span,
-};
-use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
+use crate::parsers::operation::{operation, Operation};
+use crate::parsers::{parse_f_head, parse_number, ParseResult, Span};
 use crate::types::FExp;
 
 /// Parses an f-exp.
@@ -52,35 +48,16 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let number = map(parse_number, FExp::new_number);
 
     // :numeric-fluents
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, parse_f_exp),
-        ))),
-        |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, space_separated_list1(parse_f_exp)),
-        ))),
-        |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_f_exp))),
-        FExp::new_negative,
-    );
+    let operation = map(operation(parse_f_exp), |operation| match operation {
+        Operation::Negative(value) => FExp::new_negative(value),
+        Operation::Binary(op, lhs, rhs) => FExp::new_binary_op(op, lhs, rhs),
+        Operation::Multi(op, lhs, rhs) => FExp::new_multi_op(op, lhs, rhs),
+    });
 
     // :numeric-fluents
     let f_head = map(parse_f_head, FExp::new_function);
 
-    alt((number, binary_op, multi_op, negated, f_head))(input.into())
+    alt((number, operation, f_head))(input.into())
 }
 
 impl crate::parsers::Parser for FExp {
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 4b8d01c..7d002f9 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,12 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, separator, space_separated_list1, ws, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
+use crate::parsers::operation::{operation, Operation};
+use crate::parsers::{parse_f_exp, ParseResult, Span};
 use crate::types::FExpDa;
 
 /// Parses an f-exp-da.
@@ -40,32 +38,15 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     // :duration-inequalities
     let duration = map(tag("?duration"), |_| FExpDa::new_duration());
 
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, parse_f_exp_da),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, space_separated_list1(parse_f_exp_da)),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_f_exp_da))),
-        FExpDa::new_negative,
-    );
+    let operation = map(operation(parse_f_exp_da), |operation| match operation {
+        Operation::Negative(value) => FExpDa::new_negative(value),
+        Operation::Binary(op, lhs, rhs) => FExpDa::new_binary_op(op, lhs, rhs),
+        Operation::Multi(op, lhs, rhs) => FExpDa::new_multi_op(op, lhs, rhs),
+    });
 
     let f_exp = map(parse_f_exp, FExpDa::new_f_exp);
 
-    alt((duration, binary_op, multi_op, negated, f_exp))(input.into())
+    alt((duration, operation, f_exp))(input.into())
 }
 
 impl crate::parsers::Parser for FExpDa {
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 4e65cbd..5e18175 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,15 +1,14 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::operation::{operation, Operation};
 use crate::parsers::{
     keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    space_separated_list0, ws, ParseResult, Span,
 };
-use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::tuple;
 
 /// Parses a metric f-exp.
 ///
@@ -75,28 +74,11 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, parse_metric_f_exp),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, space_separated_list1(parse_metric_f_exp)),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_metric_f_exp))),
-        MetricFExp::new_negative,
-    );
+    let operation = map(operation(parse_metric_f_exp), |operation| match operation {
+        Operation::Negative(value) => MetricFExp::new_negative(value),
+        Operation::Binary(op, lhs, rhs) => MetricFExp::new_binary_op(op, lhs, rhs),
+        Operation::Multi(op, lhs, rhs) => MetricFExp::new_multi_op(op, lhs, rhs),
+    });
 
     let number = map(parse_number, MetricFExp::new_number);
 
@@ -121,9 +103,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
 
     alt((
         number,
-        binary_op,
-        multi_op,
-        negated,
+        operation,
         total_time,
         is_violated,
         complex_function,
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 7437048..e292bf3 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -51,6 +51,7 @@ mod multi_op;
 mod name;
 pub(crate) mod number;
 mod objects_def;
+mod operation;
 mod optimization;
 mod p_effect;
 mod pre_gd;
diff --git a/src/parsers/operation.rs b/src/parsers/operation.rs
new file mode 100644
index 0000000..01cf7b3
--- /dev/null
+++ b/src/parsers/operation.rs
@@ -0,0 +1,52 @@
+//! Provides a parser for arithmetic operations on any kind of expression.
+
+use nom::branch::alt;
+use nom::character::complete::char;
+use nom::combinator::{map, not};
+use nom::multi::{many1, many_m_n};
+use nom::sequence::{preceded, tuple};
+
+use crate::parsers::{parens, parse_binary_op, separator, ParseResult, Span};
+use crate::types::{BinaryOp, MultiOp};
+
+/// An arithmetic operation on operands of type `O`.
+pub enum Operation<O> {
+    Negative(O),
+    Binary(BinaryOp, O, O),
+    Multi(MultiOp, O, Vec<O>),
+}
+
+/// Parses `(- <operand>)`, `(<binary-op> <operand> <operand>)` and
+/// `(<multi-op> <operand> <operand>⁺)`. Every operand is visited only once
+/// because the number of alternatives would multiply with each nesting level otherwise.
+pub fn operation<'a, F, O>(mut operand: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Operation<O>>
+where
+    F: Copy + FnMut(Span<'a>) -> ParseResult<'a, O>,
+{
+    let operands = move |input| {
+        let (input, op) = parse_binary_op(input)?;
+        let (input, lhs) = preceded(separator, operand)(input)?;
+        let rhs = preceded(separator, operand);
+        let (input, mut rhs) = match op {
+            BinaryOp::Subtraction => many_m_n(0, 1, rhs)(input)?,
+            BinaryOp::Division => many_m_n(1, 1, rhs)(input)?,
+            BinaryOp::Multiplication | BinaryOp::Addition => many1(rhs)(input)?,
+        };
+
+        let operation = match (rhs.len(), MultiOp::try_from(op)) {
+            (0, _) => Operation::Negative(lhs),
+            (1, _) | (_, Err(_)) => Operation::Binary(op, lhs, rhs.remove(0)),
+            (_, Ok(op)) => Operation::Multi(op, lhs, rhs),
+        };
+        Ok((input, operation))
+    };
+
+    // The minus sign may also directly precede an operand, e.g. `(-5)`.
+    let sign = tuple((char('-'), not(separator)));
+    let signed = map(
+        preceded(sign, move |input| operand(input)),
+        Operation::Negative,
+    );
+
+    parens(alt((operands, signed)))
+}
-- 
2.43.0


From 2475f9a53de33d2935b6947316f44fae82fc90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 08/18] fix: report numbers that are too large instead of
 panicking

---
 src/parsers/number.rs | 4 ++--
 src/types/number.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..243bc33 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From 85ab23cad59fcb2262532317bb8d393243f6bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 09/18] fix: compare positive and negative zero as equal
 numbers everywhere

PartialEq and PartialOrd used the total order of f32, in contrast to Ord and Hash.
---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From eabdcd00eae12e7c4a011a945ffc32333a785d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 10/18] fix: names with the same spelling are equal and hash
 equally

A name made from a static string never equalled the same name made otherwise.
---
 src/types/name.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..62497df 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,24 @@ impl Deref for NameVariant {
     }
 }
 
+// Names are identified by their spelling, regardless of how it is stored.
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (NameVariant::String(lhs), NameVariant::String(rhs)) => lhs.eq(rhs),
+            _ => self.eq(&**other),
+        }
+    }
+}
+
+impl Eq for NameVariant {}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 1bf8c3f5c0f294bd0b7b356009a7b6263da9b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 11/18] fix: do not run caller-provided conversions while
 holding the interning lock

A conversion that panicked poisoned the lock, so that no name could be created or
parsed any more; one that created a name blocked forever.
---
 src/types/name.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index 62497df..abfed6f 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -92,13 +92,25 @@ impl Name {
     fn new_string_interned<S: Into<String> + AsRef<str>>(name: S) -> Self {
         #[cfg(feature = "interning")]
         {
+            let find = |names: &[Arc<String>], value: &str| {
+                names.binary_search_by(|name| value.cmp(name.as_str()))
+            };
+
+            // The conversions are provided by the caller and may panic or create names
+            // themselves, so they must not run while the lock is held.
+            let value = name.as_ref();
+            let guard = STRING_INTERNING.lock().expect("failed to obtain lock");
+            if let Ok(pos) = find(&guard, value) {
+                return Self(NameVariant::String(guard[pos].clone()));
+            }
+            drop(guard);
+
+            let value: String = name.into();
             let mut guard = STRING_INTERNING.lock().expect("failed to obtain lock");
-            let name_ref = name.as_ref();
-            let pos = guard.binary_search_by(|name| name_ref.cmp(name.as_str()));
-            let pos = match pos {
+            let pos = match find(&guard, &value) {
                 Ok(pos) => pos,
                 Err(pos) => {
-                    guard.insert(pos, Arc::new(name.into()));
+                    guard.insert(pos, Arc::new(value));
                     pos
                 }
             };
-- 
2.43.0


From 6415464ebd86fa03aef2e7deda300f8a1291e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 12/18] fix: let :adl and :timed-initial-literals contain
 everything they imply

---
 src/types/requirement.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..f80a89f 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -147,6 +147,9 @@ impl Requirement {
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
@@ -156,6 +159,9 @@ impl Requirement {
                     || other == Self::NumericFluents
                     || other == Self::ObjectFluents
             }
+            Self::TimedInitialLiterals => {
+                other == Self::TimedInitialLiterals || other == Self::DurativeActions
+            }
             x => other.eq(x),
         }
     }
@@ -206,6 +212,10 @@ impl Requirement {
                 Requirement::UniversalPreconditions, // added via Requirement::QuantifiedPreconditions,
                 Requirement::ConditionalEffects,
             ],
+            Requirement::TimedInitialLiterals => vec![
+                Requirement::TimedInitialLiterals,
+                Requirement::DurativeActions,
+            ],
             r => vec![*r],
         }
     }
-- 
2.43.0


From 2d8b8f377712022e4e377b2701f2d75d95b406d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 13/18] fix: build without the parser feature

The error types derived from thiserror, which is only available to the parser.
---
 src/types/assign_op.rs      | 13 +++++++++++--
 src/types/assign_op_t.rs    | 13 +++++++++++--
 src/types/binary_comp.rs    | 13 +++++++++++--
 src/types/binary_op.rs      | 26 ++++++++++++++++++++++----
 src/types/d_op.rs           | 13 +++++++++++--
 src/types/interval.rs       | 13 +++++++++++--
 src/types/multi_op.rs       | 13 +++++++++++--
 src/types/optimization.rs   | 13 +++++++++++--
 src/types/requirement.rs    | 13 +++++++++++--
 src/types/time_specifier.rs | 13 +++++++++++--
 10 files changed, 121 insertions(+), 22 deletions(-)

diff --git a/src/types/assign_op.rs b/src/types/assign_op.rs
index 77ba8bf..1b26468 100644
--- a/src/types/assign_op.rs
+++ b/src/types/assign_op.rs
@@ -108,12 +108,21 @@ impl TryFrom<&str> for AssignOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for AssignOp {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/assign_op_t.rs b/src/types/assign_op_t.rs
index 47b4335..b812233 100644
--- a/src/types/assign_op_t.rs
+++ b/src/types/assign_op_t.rs
@@ -38,8 +38,17 @@ impl TryFrom<&str> for AssignOpT {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_comp.rs b/src/types/binary_comp.rs
index cec53c4..e9ccb8f 100644
--- a/src/types/binary_comp.rs
+++ b/src/types/binary_comp.rs
@@ -50,8 +50,17 @@ impl TryFrom<&str> for BinaryComp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/binary_op.rs b/src/types/binary_op.rs
index aef42b7..9bead31 100644
--- a/src/types/binary_op.rs
+++ b/src/types/binary_op.rs
@@ -68,14 +68,32 @@ impl TryFrom<BinaryOp> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
+#[derive(Debug, Clone)]
 pub enum TryFromError {
-    #[error("Operation is not a MultiOp")]
     NotAMultiOp,
 }
+
+impl Display for TryFromError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            TryFromError::NotAMultiOp => write!(f, "Operation is not a MultiOp"),
+        }
+    }
+}
+
+impl std::error::Error for TryFromError {}
diff --git a/src/types/d_op.rs b/src/types/d_op.rs
index c768b84..3b2c7ec 100644
--- a/src/types/d_op.rs
+++ b/src/types/d_op.rs
@@ -44,8 +44,17 @@ impl TryFrom<&str> for DOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/interval.rs b/src/types/interval.rs
index 65fd2e7..e173342 100644
--- a/src/types/interval.rs
+++ b/src/types/interval.rs
@@ -35,8 +35,17 @@ impl TryFrom<&str> for Interval {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid interval")]
     InvalidInterval,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidInterval => write!(f, "Invalid interval"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/multi_op.rs b/src/types/multi_op.rs
index 1256948..40fba1d 100644
--- a/src/types/multi_op.rs
+++ b/src/types/multi_op.rs
@@ -39,8 +39,17 @@ impl TryFrom<&str> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid operation")]
     InvalidOperation,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidOperation => write!(f, "Invalid operation"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/optimization.rs b/src/types/optimization.rs
index d053aac..06b1a5d 100644
--- a/src/types/optimization.rs
+++ b/src/types/optimization.rs
@@ -43,8 +43,17 @@ impl TryFrom<&str> for Optimization {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid goal")]
     InvalidGoal,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidGoal => write!(f, "Invalid goal"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index f80a89f..03fad1c 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -252,12 +252,21 @@ impl TryFrom<&str> for Requirement {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid requirement")]
     InvalidRequirement,
 }
 
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidRequirement => write!(f, "Invalid requirement"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
+
 impl Borrow<str> for Requirement {
     fn borrow(&self) -> &str {
         self.as_str()
diff --git a/src/types/time_specifier.rs b/src/types/time_specifier.rs
index 4ee9026..be16890 100644
--- a/src/types/time_specifier.rs
+++ b/src/types/time_specifier.rs
@@ -40,8 +40,17 @@ impl TryFrom<&str> for TimeSpecifier {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
 pub enum ParseError {
-    #[error("Invalid specifier")]
     InvalidSpecifier,
 }
+
+impl Display for ParseError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            ParseError::InvalidSpecifier => write!(f, "Invalid specifier"),
+        }
+    }
+}
+
+impl std::error::Error for ParseError {}
-- 
2.43.0


From d60239597df61bdc116e55a6f3a740f427f3d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 14/18] fix: leave metric_spec.rs and length_spec.rs as they
 were

Their names match the pattern for test files, which must not change; the
layout defects in these two sections stay open (see the known findings).
---
 src/parsers/length_spec.rs | 10 +++++++---
 src/parsers/metric_spec.rs | 10 ++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parsers/length_spec.rs b/src/parsers/length_spec.rs
index 2e9242c..be4ad98 100644
--- a/src/parsers/length_spec.rs
+++ b/src/parsers/length_spec.rs
@@ -1,9 +1,10 @@
 //! Provides parsers for length specification.
 
+use nom::character::complete::multispace0;
 use nom::combinator::{map, opt};
-use nom::sequence::tuple;
+use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{prefix_expr, ws, ParseResult, Span};
+use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::LengthSpec;
 
 /// Parses a length specification. Deprecated since PDDL 2.1.
@@ -20,7 +21,10 @@ use crate::types::LengthSpec;
 pub fn parse_problem_length_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, LengthSpec> {
     let serial = prefix_expr(":serial", nom::character::complete::u64);
     let parallel = prefix_expr(":parallel", nom::character::complete::u64);
-    let length = prefix_expr(":length", tuple((opt(serial), opt(ws(parallel)))));
+    let length = prefix_expr(
+        ":length",
+        tuple((opt(serial), opt(preceded(multispace0, parallel)))),
+    );
 
     map(length, |(serial, parallel)| {
         LengthSpec::new(serial, parallel)
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index 8f148bc..ff4be55 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for metric specification.
 
+use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{
-    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
-};
+use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -26,7 +25,10 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
+            tuple((
+                parse_optimization,
+                preceded(multispace1, parse_metric_f_exp),
+            )),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
-- 
2.43.0


From 9f8e88c6521a14cdd2f8c6d0b611d31dcce68738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:12 +0000
Subject: [PATCH 15/18] fix: accept comments before the expression of a metric

---
 src/parsers/metric_f_exp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 5e18175..4a812ee 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -101,14 +101,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         MetricFExp::new_is_violated,
     );
 
-    alt((
+    ws(alt((
         number,
         operation,
         total_time,
         is_violated,
         complex_function,
         simple_function,
-    ))(input.into())
+    )))(input.into())
 }
 
 impl crate::parsers::Parser for MetricFExp {
-- 
2.43.0


From 7c08f7215240db1a865db1061bf73d940e45bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 16/18] fix: a quantified constraint over empty constraints is
 empty

---
 src/types/pref_con_gd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/pref_con_gd.rs b/src/types/pref_con_gd.rs
index 7b7028e..c5810e3 100644
--- a/src/types/pref_con_gd.rs
+++ b/src/types/pref_con_gd.rs
@@ -184,7 +184,7 @@ impl PrefConGD {
 
     pub fn is_empty(&self) -> bool {
         match self {
-            PrefConGD::Forall(_, x) => x.is_empty(),
+            PrefConGD::Forall(_, x) => x.iter().all(|y| y.is_empty()),
             PrefConGD::Preference(_, x) => x.is_empty(),
             PrefConGD::Goal(x) => x.is_empty(),
         }
-- 
2.43.0


From 629e7414300087cf9f6820789c2e4e7397ed9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:06 +0000
Subject: [PATCH 17/18] fix: look up names in constant time

Inserting into an ordered list made the effort quadratic in the number of different names.
---
 src/types/name.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index abfed6f..7c0ebf5 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -5,13 +5,15 @@ use std::fmt::{Debug, Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
+#[cfg(feature = "interning")]
+use std::collections::HashSet;
 #[cfg(feature = "interning")]
 use std::sync::{Arc, Mutex};
 
 #[cfg(feature = "interning")]
 lazy_static::lazy_static! {
     /// Used in [`Name::new_string_interned`] to deduplicate string occurrences.
-    static ref STRING_INTERNING: Mutex<Vec<Arc<String>>> = Mutex::new(Vec::default());
+    static ref STRING_INTERNING: Mutex<HashSet<Arc<str>>> = Mutex::new(HashSet::default());
 }
 
 /// A name.
@@ -33,7 +35,7 @@ enum NameVariant {
 }
 
 #[cfg(feature = "interning")]
-type InternedString = Arc<String>;
+type InternedString = Arc<str>;
 
 #[cfg(not(feature = "interning"))]
 type InternedString = String;
@@ -86,36 +88,29 @@ impl Name {
 
     /// Takes the provided `name` and interns the string.
     ///
-    /// This uses a simple binary search approach to identify the correct position of
-    /// the input in question and inserts the element if it wasn't found before.
+    /// This looks up the input in question in a set of all names and inserts the element
+    /// if it wasn't found before.
     #[cfg_attr(not(feature = "interning"), inline(always))]
     fn new_string_interned<S: Into<String> + AsRef<str>>(name: S) -> Self {
         #[cfg(feature = "interning")]
         {
-            let find = |names: &[Arc<String>], value: &str| {
-                names.binary_search_by(|name| value.cmp(name.as_str()))
-            };
-
             // The conversions are provided by the caller and may panic or create names
             // themselves, so they must not run while the lock is held.
             let value = name.as_ref();
             let guard = STRING_INTERNING.lock().expect("failed to obtain lock");
-            if let Ok(pos) = find(&guard, value) {
-                return Self(NameVariant::String(guard[pos].clone()));
+            if let Some(interned) = guard.get(value) {
+                return Self(NameVariant::String(interned.clone()));
             }
             drop(guard);
 
             let value: String = name.into();
             let mut guard = STRING_INTERNING.lock().expect("failed to obtain lock");
-            let pos = match find(&guard, &value) {
-                Ok(pos) => pos,
-                Err(pos) => {
-                    guard.insert(pos, Arc::new(value));
-                    pos
-                }
-            };
-
-            Self(NameVariant::String(guard[pos].clone()))
+            if let Some(interned) = guard.get(value.as_str()) {
+                return Self(NameVariant::String(interned.clone()));
+            }
+            let interned: Arc<str> = value.into();
+            guard.insert(interned.clone());
+            Self(NameVariant::String(interned))
         }
 
         #[cfg(not(feature = "interning"))]
@@ -229,7 +224,7 @@ impl Deref for NameVariant {
 
     fn deref(&self) -> &Self::Target {
         match self {
-            NameVariant::String(str) => str.as_str(),
+            NameVariant::String(str) => str,
             NameVariant::Static(str) => str,
         }
     }
-- 
2.43.0


From 6dfe2bd13adc931d76d4e8b3ea34f8249343661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 18/18] fix: the name of a variable directly follows its
 question mark

---
 src/parsers/name.rs     | 9 +++++++--
 src/parsers/variable.rs | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parsers/name.rs b/src/parsers/name.rs
index e457b13..11f51b7 100644
--- a/src/parsers/name.rs
+++ b/src/parsers/name.rs
@@ -26,10 +26,15 @@ use nom::sequence::tuple;
 /// assert!(parse_name("-1").is_err());
 ///```
 pub fn parse_name<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Name> {
+    ws(parse_bare_name)(input.into())
+}
+
+/// Parses a name that begins right at the input, i.e. without any whitespace or comment before it.
+pub(crate) fn parse_bare_name(input: Span) -> ParseResult<Name> {
     map(
-        ws(recognize(tuple((alpha1, many0(parse_any_char))))),
+        recognize(tuple((alpha1, many0(parse_any_char)))),
         |x: Span| Name::from(*x.fragment()),
-    )(input.into())
+    )(input)
 }
 
 /// Parses any accepted character.
diff --git a/src/parsers/variable.rs b/src/parsers/variable.rs
index d3924c3..007859e 100644
--- a/src/parsers/variable.rs
+++ b/src/parsers/variable.rs
@@ -4,7 +4,8 @@ use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::preceded;
 
-use crate::parsers::{parse_name, ParseResult, Span};
+use crate::parsers::name::parse_bare_name;
+use crate::parsers::{ParseResult, Span};
 use crate::types::Variable;
 
 /// Parses a variable, i.e. `?<name>` and returns its name.
@@ -22,7 +23,7 @@ use crate::types::Variable;
 /// assert!(parse_variable(Span::new("?1")).is_err());
 ///```
 pub fn parse_variable<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Variable> {
-    map(preceded(tag("?"), parse_name), Variable::from)(input.into())
+    map(preceded(tag("?"), parse_bare_name), Variable::from)(input.into())
 }
 
 impl crate::parsers::Parser for Variable {
-- 
2.43.0

