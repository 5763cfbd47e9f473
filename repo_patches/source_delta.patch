From f5f53ba53873f0511da2c3ff2f0ee12276bef142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 1/7] fix: keep caller code out of the interner's lock and
 survive its failures

Name::new ran the caller's AsRef/Into conversions while holding the interning
lock: one that panicked poisoned the lock for every later name in the process,
one that created a name itself deadlocked, one that blocked stalled every other
thread, and one whose two results disagreed corrupted the table's order.
---
 src/types/name.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..071f919 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -5,7 +5,7 @@ use std::fmt::{Debug, Display, Formatter};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, PoisonError};
 
 #[cfg(feature = "interning")]
 lazy_static::lazy_static! {
@@ -91,13 +91,18 @@ impl Name {
     fn new_string_interned<S: Into<String> + AsRef<str>>(name: S) -> Self {
         #[cfg(feature = "interning")]
         {
-            let mut guard = STRING_INTERNING.lock().expect("failed to obtain lock");
+            // The caller's conversions may panic, block or create names themselves: they must not
+            // run while the lock is held.
             let name_ref = name.as_ref();
+            // The table is consistent whenever the lock can be released, so poisoning is of no concern.
+            let mut guard = STRING_INTERNING
+                .lock()
+                .unwrap_or_else(PoisonError::into_inner);
             let pos = guard.binary_search_by(|name| name_ref.cmp(name.as_str()));
             let pos = match pos {
                 Ok(pos) => pos,
                 Err(pos) => {
-                    guard.insert(pos, Arc::new(name.into()));
+                    guard.insert(pos, Arc::new(name_ref.to_owned()));
                     pos
                 }
             };
-- 
2.43.0


From 6cc26d41bcb684f3c989777f3cc906e68da46616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:25 +0000
Subject: [PATCH 2/7] fix: compare and hash names by their text

Equality and hashing were derived from the storage variant, so a name made by
Name::new_static (or Name::default) was unequal to the same name made by
Name::new or by a parser.
---
 src/types/name.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index 071f919..c7437c2 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -227,6 +228,21 @@ impl Deref for NameVariant {
     }
 }
 
+/// Names are equal if their texts are, no matter how they are stored.
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for NameVariant {}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From ee7b73aa779af37dddd9c2e5dc84d41931328669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:36 +0000
Subject: [PATCH 3/7] fix: reject numbers out of range instead of panicking

Parsing a number whose digits exceed the range of f32 ran into the assertion of
Number::new; it is now a parse error, and NumberError::NotFinite from FromStr.
---
 src/parsers/number.rs | 5 +++--
 src/types/number.rs   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..15c6995 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,8 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    // Digits beyond the range of the number type are not a number.
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From f1bcab640f5c3e996b2b6083f0a44f157b9697dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 4/7] fix: skip comment lines in a loop

Every line of a block of comments took a level of recursion, so a long block
overflowed the stack.
---
 src/parsers/comments.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..ba038eb 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,7 +1,7 @@
 use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
-use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0_count;
+use nom::sequence::terminated;
 use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 
 /// Parses a comment and swallows trailing whitespace / newline.
@@ -34,10 +34,7 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
-        )),
+        many0_count(terminated(pair(char(';'), is_not("\r\n")), multispace0)),
     )(input.into())
 }
 
-- 
2.43.0


From 6e8c1a62ebbdede79216f0ba0d302569af246c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 5/7] fix: a comment with nothing after its semicolon is a
 comment

---
 src/parsers/comments.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ba038eb..d586e82 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -2,7 +2,11 @@ use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
 use nom::multi::many0_count;
 use nom::sequence::terminated;
-use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
+use nom::{
+    bytes::complete::is_not,
+    combinator::{opt, value},
+    sequence::pair,
+};
 
 /// Parses a comment and swallows trailing whitespace / newline.
 ///
@@ -34,7 +38,10 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        many0_count(terminated(pair(char(';'), is_not("\r\n")), multispace0)),
+        many0_count(terminated(
+            pair(char(';'), opt(is_not("\r\n"))),
+            multispace0,
+        )),
     )(input.into())
 }
 
-- 
2.43.0


From 5aed030706f0862692f9d81307c3503b4816e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 6/7] fix: any white space may stand between at and end of an
 (at end ...) constraint

---
 src/parsers/con_gd.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..787d6c8 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -2,13 +2,14 @@
 
 use crate::parsers::{
     parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    ws, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::character::complete::multispace1;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{delimited, preceded, tuple};
 
 /// Parses conditional goal definitions.
 ///
@@ -174,7 +175,14 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        delimited(
+            tuple((ws(tag("(")), tag("at"), multispace1, tag("end"))),
+            ws(parse_gd),
+            ws(tag(")")),
+        ),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From 9004a9725b47f4fce8907776ed5de643033d1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 7/7] fix: comments may stand between any two parts of an
 expression

Where a part that is not in parentheses followed a comment, the document was
rejected, or, as in (assign (f ?x) ; comment
?y), read as a predicate of the keyword's name.
---
 src/parsers/action_def.rs                 |  2 +-
 src/parsers/c_effect.rs                   |  2 +-
 src/parsers/con_gd.rs                     |  2 +-
 src/parsers/da_def.rs                     |  2 +-
 src/parsers/da_effect.rs                  |  2 +-
 src/parsers/da_gd.rs                      |  2 +-
 src/parsers/derived_predicate.rs          |  2 +-
 src/parsers/domain.rs                     |  2 +-
 src/parsers/f_assign_da.rs                |  2 +-
 src/parsers/f_comp.rs                     |  2 +-
 src/parsers/f_exp.rs                      |  7 ++++---
 src/parsers/f_exp_da.rs                   |  7 ++++---
 src/parsers/f_exp_t.rs                    |  2 +-
 src/parsers/f_head.rs                     |  2 +-
 src/parsers/gd.rs                         |  2 +-
 src/parsers/init_el.rs                    |  2 +-
 src/parsers/metric_f_exp.rs               | 16 ++++++++--------
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   |  2 +-
 src/parsers/pre_gd.rs                     |  2 +-
 src/parsers/pref_con_gd.rs                |  2 +-
 src/parsers/pref_gd.rs                    |  2 +-
 src/parsers/pref_timed_gd.rs              |  2 +-
 src/parsers/problem.rs                    |  2 +-
 src/parsers/simple_duration_constraint.rs |  2 +-
 src/parsers/timed_effect.rs               |  2 +-
 src/parsers/timed_gd.rs                   |  2 +-
 src/parsers/utilities.rs                  | 14 ++++++++++++--
 28 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..2a67dab 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for action definitions.
 
+use crate::parsers::multispace1;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..7c6fb9d 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for c-effects.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 787d6c8..f4cbaa9 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for conditional goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
     ws, ParseResult, Span,
@@ -7,7 +8,6 @@ use crate::parsers::{
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{delimited, preceded, tuple};
 
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..860e76a 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for durative action definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..22630c1 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..5ab306a 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..42962fd 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..e4bc0c5 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..02ce795 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,9 @@
 //! Provides parsers for f-assign-das.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..06157ff 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..07a8d9e 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, parse_number, space_separated_list1, ws, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
 use crate::types::FExp;
 
@@ -71,7 +72,7 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
 
     // :numeric-fluents
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
+        parens(preceded(char('-'), ws(parse_f_exp))),
         FExp::new_negative,
     );
 
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..902ed1f 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,12 +1,13 @@
 //! Provides parsers for f-exp-da values..
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, space_separated_list1, ws, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -59,7 +60,7 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     );
 
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
+        parens(preceded(char('-'), ws(parse_f_exp_da))),
         FExpDa::new_negative,
     );
 
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..b0314bb 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..5c00c4d 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for f-heads.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..8c9f29d 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..7b8ae7e 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for initial state list elements.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..fd4ecd5 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,14 +1,15 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    ignore_eol_comment, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name,
+    prefix_expr, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -76,6 +77,8 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
+    let (input, _) = ignore_eol_comment(input)?;
+
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
@@ -95,10 +98,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     );
 
     let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
+        parens(preceded(char('-'), ws(parse_metric_f_exp))),
         MetricFExp::new_negative,
     );
 
@@ -132,7 +132,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         is_violated,
         complex_function,
         simple_function,
-    ))(input.into())
+    ))(input)
 }
 
 impl crate::parsers::Parser for MetricFExp {
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..23e2f02 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    multispace1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..dcd3e36 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for p-effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
     ParseResult, Span,
@@ -8,7 +9,6 @@ use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..1dec725 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..710f8fb 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for preferred goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
     typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..36b4fb2 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for preference goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..46db779 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..04976f3 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..f2e52e8 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for simple duration constraints.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..d16c21c 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for timed effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
@@ -7,7 +8,6 @@ use crate::parsers::{
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..2a4f241 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for timed goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..1737f02 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -2,9 +2,10 @@
 
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{self, char, multispace0};
+use nom::combinator::recognize;
 use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, pair, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -27,6 +28,15 @@ where
     preceded(preceded(multispace0, ignore_eol_comment), inner)
 }
 
+/// Like nom's parser of the same name, but takes line comments for whitespace.
+pub fn multispace1(input: Span) -> ParseResult<Span> {
+    let (remainder, gap) = recognize(pair(multispace0, ignore_eol_comment))(input)?;
+    if gap.is_empty() {
+        return complete::multispace1(input);
+    }
+    Ok((remainder, gap))
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading
 /// and trailing whitespace, returning the output of `inner`.
 ///
-- 
2.43.0

