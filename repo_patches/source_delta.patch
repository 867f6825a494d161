From 83c4f87f5b5364651594406b49bcd0ecae201144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:29 +0000
Subject: [PATCH 01/28] fix: compare numbers by their exact value

Equality was not symmetric between floats and integers, a negative zero or
NaN float sorted below unsigned zero, and floats beyond the 128-bit range
compared equal to the largest integer.
---
 src/ds/num.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..596650b 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -276,22 +276,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -381,9 +366,9 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= UINT_LIMIT || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -402,9 +387,9 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < -INT_LIMIT {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= INT_LIMIT || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
@@ -428,13 +413,17 @@ fn rev_ordering(ord: Ordering) -> Ordering {
     }
 }
 
-/// make sure to check infinities and nan beforehand
-/// make sure to check for positivity
+/// The first float above the range of `u128` (2^128).
+const UINT_LIMIT: f64 = u128::MAX as f64;
+/// The first float above the range of `i128` (2^127). The range starts at `-INT_LIMIT`.
+const INT_LIMIT: f64 = i128::MAX as f64;
+
+/// make sure the number is within the range of `u128` beforehand
 fn float_bounds_uint(f: f64) -> (u128, u128) {
     (f.floor() as u128, f.ceil() as u128)
 }
 
-/// make sure to check infinities and nan beforehand
+/// make sure the number is within the range of `i128` beforehand
 fn float_bounds_int(f: f64) -> (i128, i128) {
     (f.floor() as i128, f.ceil() as i128)
 }
-- 
2.43.0


From 3baee374cbba30645aec824c5c5387d58ccece49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 02/28] fix: hash equal numbers equally

Negative zero and the different NaNs are equal to zero and NaN but hashed
differently.
---
 src/ds/num.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 596650b..1fbe1c8 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -253,7 +253,12 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        let x = match self.as_f64() {
+            x if x.is_nan() => f64::NAN, // all NaNs are equal
+            x if x == 0.0 => 0.0,        // as are all zeroes
+            x => x,
+        };
+        x.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From 37e07e003127dcada78fd0573941db4749c173d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:49 +0000
Subject: [PATCH 03/28] fix: refuse integer conversion of floats beyond the
 integer range

Finite floats outside the 128-bit range were clamped to the largest or
smallest integer.
---
 src/ds/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 1fbe1c8..aa3c032 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -140,7 +140,7 @@ impl Number {
             Uint(x) => Ok(*x),
             Int(x) => (*x).try_into().map_err(|_| IntoIntError),
             Float(x) => {
-                if x.is_finite() && x >= &0.0 {
+                if *x >= 0.0 && *x < UINT_LIMIT {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
@@ -176,7 +176,7 @@ impl Number {
             Uint(x) => (*x).try_into().map_err(|_| IntoIntError),
             Int(x) => Ok(*x),
             Float(x) => {
-                if x.is_finite() {
+                if *x >= -INT_LIMIT && *x < INT_LIMIT {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
-- 
2.43.0


From 6c6c44758a2a03b73b05fb08a3325cf52f51e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:00 +0000
Subject: [PATCH 04/28] fix: write large floats so that they read back as the
 same number

Floats of 2^53 and above were written as all digits, which read back as a
different integer or did not read back at all.
---
 src/ds/num.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index aa3c032..471da38 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -215,6 +215,9 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // A float this large has no fractional part and would be written without a decimal
+            // point, to be read back as another integer (or as none at all).
+            Float(x) if x.is_finite() && x.abs() >= FLOAT_INT_LIMIT => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
@@ -423,6 +426,9 @@ const UINT_LIMIT: f64 = u128::MAX as f64;
 /// The first float above the range of `i128` (2^127). The range starts at `-INT_LIMIT`.
 const INT_LIMIT: f64 = i128::MAX as f64;
 
+/// Every integer up to this magnitude has an exact float, larger ones may not (2^53).
+const FLOAT_INT_LIMIT: f64 = (1u64 << 53) as f64;
+
 /// make sure the number is within the range of `u128` beforehand
 fn float_bounds_uint(f: f64) -> (u128, u128) {
     (f.floor() as u128, f.ceil() as u128)
-- 
2.43.0


From 89cc0f4da64b9b1e342afad922e19edfd1b34c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:42 +0000
Subject: [PATCH 05/28] fix: order an empty container as the empty tuple it is
 equal to

The ordering said an empty tuple and an empty container differ while equality
says they are the same, so ordered maps could hold both as keys.
---
 src/ds/val.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..59f7bd5 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,49 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+/// Values are ordered by variant and then by content. As for equality, an empty container is taken
+/// as an empty tuple.
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        fn rank(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                Cntr(x) if x.is_empty() => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            (a, b) => rank(a).cmp(&rank(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From 938a002a809e8cda9868b2b64c4286fcc2f188d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:54 +0000
Subject: [PATCH 06/28] fix: do not drop the character before a tuple whose
 identity is hidden

---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 52aac50da4b568c4d8c325d9d6c2d1849cca1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:54 +0000
Subject: [PATCH 07/28] fix: cap layouts that have no verbose form

Map keys, and sequences or maps nested in sequences, maps or tuples, could be
laid out as verbose. Formatting then panicked or wrote text that means
something else.
---
 src/fmt/formatter.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..16b85ea 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -19,7 +19,8 @@ use std::{error, fmt as stdfmt, ops::Deref};
 ///    `Concise`.
 /// 3. Tuples cannot be formatted as `Verbose`
 /// 4. Primitives can _only_ be formatted as `Inline`
-/// 5. A sequence or map which is at the root cannot be formatted as `Verbose`
+/// 5. Map keys, and sequences or maps which are not a field of a container (such as at the root),
+///    cannot be formatted as `Verbose`
 ///
 /// If a request is made that fails one of these conditions, an error result is returned.
 ///
@@ -104,12 +105,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
-
+            let line = max_node_line_repr(&node);
             let id = true;
 
             fmts.push(Fmt { id, line });
@@ -300,7 +296,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let max_line_repr = max_node_line_repr(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -376,6 +372,27 @@ fn max_line_repr(nv: &NodeValue) -> Repr {
     }
 }
 
+/// Highest line representation a node can take where it stands. Map keys, and sequences and maps
+/// which are not a field of a container, have no verbose form.
+fn max_node_line_repr(node: &Node) -> Repr {
+    let is_field = match node.parent() {
+        Some(parent) => matches!(parent.value(), NodeValue::Cntr(_)),
+        None => false,
+    };
+    let has_verbose = match node.value() {
+        _ if node.is_key() => false,
+        NodeValue::Seq(_) | NodeValue::Map(_) => is_field,
+        _ => true,
+    };
+
+    let max = max_line_repr(&node.value());
+    if has_verbose {
+        max
+    } else {
+        std::cmp::min(max, Repr::Concise)
+    }
+}
+
 /// Validates that the request can be made.
 /// Will return the `Repr` if it can, otherwise the error if not.
 fn validate_requst_repr(
-- 
2.43.0


From 77681b4de0e59522173292c821d04562806ddd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:08 +0000
Subject: [PATCH 08/28] fix: write every string with a delimiter that reads
 back

The delimiters '=', '_' and '(' made the text read as a field assignment, a
name or a tuple, and a string holding all the listed delimiters panicked.
---
 src/fmt/prims.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..1b0d017 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -31,6 +31,7 @@ fn fmt_unit(buf: &mut String, ident: Option<&str>) {
 fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
     maybe_write_prim_ident(buf, fmt_ident, ident);
     let used = Used::parse(val);
+    // '=', '_' and '(' are not used as delimiters, they would read as `str =`, `str_` and `str(`
     if !used.contains(Used::DBL_QUOTE) {
         write!(buf, "\"{}\"", val)
     } else if !used.contains(Used::QUOTE) {
@@ -39,8 +40,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +54,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +64,14 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // any character can be a delimiter, so look further
+        let d = ('¡'..=char::MAX)
+            .find(|&c| !val.contains(c))
+            .expect("a string does not hold every character");
+        write!(buf, "str{}{}{}", d, val, d)
     }
     .ok();
 }
@@ -96,7 +95,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +102,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +126,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +133,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From 9b8d96ababd602dc69fe4263522cf6e225f1332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:34 +0000
Subject: [PATCH 09/28] fix: indent the entries of a verbose map in a nested
 container

The entry headers of a map were written at the start of the line whatever the
nesting, so they read back as fields of the outermost container.
---
 src/fmt/maps.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..a59df7b 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,11 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
-- 
2.43.0


From d29a533ce3dc89b2c38041021c3fa3932aee0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:34 +0000
Subject: [PATCH 10/28] fix: write the identities of verbose sequences and maps

The entry headers did not carry the identity, so it was lost in the text even
with the display of identities switched on.
---
 src/fmt/cntr.rs |  7 +------
 src/fmt/maps.rs |  1 +
 src/fmt/mod.rs  | 11 +++++++++++
 src/fmt/seqs.rs |  1 +
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fmt/cntr.rs b/src/fmt/cntr.rs
index 9decbaa..c13e7d3 100644
--- a/src/fmt/cntr.rs
+++ b/src/fmt/cntr.rs
@@ -97,12 +97,7 @@ pub(super) fn write(
                         buf.push('[');
                         buf.push_str(name);
                         // careful, need to refer to the _field's_ node
-                        if vfmt.id {
-                            if let Some(id) = v.kserd().id() {
-                                buf.push(':');
-                                buf.push_str(id);
-                            }
-                        }
+                        maybe_write_field_ident(&mut buf, vfmt.id, v.kserd().id());
                         buf.push_str("]\n");
                         // notice the added INDENT!!! cntr's indent children
                         cntr::write(buf, v, fmts, col + INDENT, false, map)
diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index a59df7b..981d6fd 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -96,6 +96,7 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                maybe_write_field_ident(&mut buf, fmt.id, id);
                 buf.push_str("]]\n");
                 write_indent(&mut buf, col);
 
diff --git a/src/fmt/mod.rs b/src/fmt/mod.rs
index 358f871..6b0cfdb 100644
--- a/src/fmt/mod.rs
+++ b/src/fmt/mod.rs
@@ -474,6 +474,17 @@ fn maybe_write_nonprim_ident(buf: &mut String, print: bool, ident: Option<&str>)
     }
 }
 
+/// Maybe writes the identity after the field name of a verbose value.
+/// These are always in ':Name' format.
+fn maybe_write_field_ident(buf: &mut String, print: bool, ident: Option<&str>) {
+    if print {
+        if let Some(ident) = ident {
+            buf.push(':');
+            buf.push_str(ident);
+        }
+    }
+}
+
 fn delim_writer<P, B, S>(buf: String, prefix: P, suffix: S, body: B) -> String
 where
     P: FnOnce(String) -> String,
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..7903bc3 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -63,6 +63,7 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                maybe_write_field_ident(&mut buf, fmt.id, id);
                 buf.push_str("]]\n");
 
                 // write value
-- 
2.43.0


From 53ae6b9804fb4930b6e4a2315df20ad867158ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:06 +0000
Subject: [PATCH 11/28] fix: recognise identities starting with true or false,
 and literals before a new line

An identity such as 'trueish' was taken for a boolean, and a literal such as
'inf' was taken for the identity of a value opened on the next line.
---
 src/parse/heuristics.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..71ecd60 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,23 +22,22 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
-        return Ok((orig, Nonprim::None));
-    }
-
     let (i, ident_) = opt(ident(true))(orig)?;
     let (i, ident_) = if ident_.is_some() {
         (i, Ident::Prim)
     } else {
         let (i, ident__) = opt(ident(false))(orig)?;
-        if ident__.is_some() {
+        if let Some(ident__) = ident__ {
+            if matches!(ident__.as_str(), "true" | "false") {
+                return Ok((orig, Nonprim::None));
+            }
             (i, Ident::Nonprim)
         } else {
             (orig, Ident::None)
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?; // an identity is on the same line as the opening delimiter
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From d30503d83d5cb308f93a804aa2e03c26da0d85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:35 +0000
Subject: [PATCH 12/28] fix: do not take a string holding an equals sign for a
 field assignment

---
 src/parse/heuristics.rs | 8 ++++++--
 src/parse/prims.rs      | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 71ecd60..f4d84c5 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -107,10 +107,14 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
-    terminated(maybe_names, char('='))(i).is_ok()
+    let name = terminated(field_name, inline_whitespace);
+
+    // a string such as str#a=b# is not a field
+    terminated(name, char::<_, ()>('='))(i).is_ok()
+        || (string::<()>(i).is_err() && terminated(maybe_names, char('='))(i).is_ok())
 }
 
 #[cfg(test)]
diff --git a/src/parse/prims.rs b/src/parse/prims.rs
index 9989c96..32d2504 100644
--- a/src/parse/prims.rs
+++ b/src/parse/prims.rs
@@ -47,7 +47,7 @@ fn parse_str<'a, E: CxErr<'a>>(
     )
 }
 
-fn string<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kstr<'a>, E> {
+pub(super) fn string<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kstr<'a>, E> {
     let (d, i) = if let Some(suff) = i.strip_prefix("str") {
         (suff.chars().next().unwrap_or('"'), suff)
     } else {
-- 
2.43.0


From 7fc3432a1ff9b2804add2cf3602a56996b9296f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:58 +0000
Subject: [PATCH 13/28] fix: tell verbose headers and inline sequences apart

A sequence of sequences, or a sequence holding only a literal, was read as the
header of a verbose field, and a header with an identity was not recognised at
the start of a container.
---
 src/parse/cntr.rs       |  4 ++-
 src/parse/heuristics.rs | 72 +++++++++++++++++++++++++++--------------
 src/parse/mod.rs        |  2 +-
 3 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..2bce20b 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -287,7 +287,9 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
     }
 }
 
-fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
+pub(super) fn expect_indents<'a, E: CxErr<'a>>(
+    indents: usize,
+) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
     move |i: &'a str| {
         let mut r = i;
 
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index f4d84c5..2cf623e 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -65,32 +65,56 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
 }
 
 /// This only matches `Verbose` variants, returning true if it looks like a `Verbose` formatting.
+/// `indents` is the number of indents expected of a container's fields.
 /// _Always_ returns the original input.
-pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<&'a str, bool, E> {
-    let (i, _) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
-
-    // generally a Verbose format can be recognised by:
-    // - An identity (:id)
-    // - A direct mapping (var_name = xxx)
-    // - A nested mapping ([var_name])
-    // - A sequence or map entry ([[var_name]])
-    let encased = |s, e| {
-        preceded::<_, _, _, (), _, _>(
-            tag(s),
-            terminated(
-                ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
-            ),
-        )(i)
-        .is_ok()
-    };
-
-    let is = i.starts_with(':');
-    let is = is || i.starts_with("[[");
-    let is = is || recognise_field_assign(i);
-    let is = is || encased("[", "]");
+pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
+    indents: usize,
+) -> impl Fn(&'a str) -> IResult<&'a str, bool, E> {
+    move |orig: &'a str| {
+        let (i, ws) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
+
+        // generally a Verbose format can be recognised by:
+        // - An identity (:id)
+        // - A direct mapping (var_name = xxx)
+        // - A nested mapping ([var_name])
+        // - A sequence or map entry ([[var_name]])
+        let is = i.starts_with(':');
+        let is = is || recognise_field_assign(i);
+        let is = is
+            || match recognise_header("[[", "]]", i).or_else(|| recognise_header("[", "]", i)) {
+                // might be a sequence with a single literal ([true]), which is _not_ indented as
+                // an entry, and is the last thing as a root
+                Some((rem, true)) if indents == 0 => !rem.trim().is_empty(),
+                Some((_, true)) => {
+                    let line = ws.rsplit('\n').next().unwrap_or(ws);
+                    cntr::expect_indents::<()>(indents)(line).is_ok()
+                }
+                Some((_, false)) => true,
+                // otherwise a sequence of sequences
+                None => i.starts_with("[[") && kserd_concise::<()>(i).is_err(),
+            };
+
+        Ok((orig, is))
+    }
+}
 
-    Ok((orig, is))
+/// Recognises the sequence `[field_name]` or `[field_name:identity]`, returning the remaining
+/// input and if the contents could also be a literal value.
+fn recognise_header<'a>(open: &str, close: &str, i: &'a str) -> Option<(&'a str, bool)> {
+    let (i, _) = tag::<_, _, ()>(open)(i).ok()?;
+    let literal = ignore_inline_whitespace(terminated(
+        prim::<()>,
+        ignore_inline_whitespace(tag(close)),
+    ))(i)
+    .is_ok();
+    let (i, _) = ignore_inline_whitespace(valid_name::<()>)(i).ok()?;
+    let (i, _) = opt(preceded(
+        ignore_inline_whitespace(char(':')),
+        ignore_inline_whitespace(valid_name::<()>),
+    ))(i)
+    .ok()?;
+    let (i, _) = ignore_inline_whitespace(tag::<_, _, ()>(close))(i).ok()?;
+    Some((i, literal))
 }
 
 /// Looks at the next characters, ignoring spaces. If there is a a new line before
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..6f0928d 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -93,7 +93,7 @@ fn kserd_nested<'a, E: CxErr<'a>>(
     indents: usize,
 ) -> impl Fn(&'a str) -> IResult<&'a str, Kserd<'a>, E> {
     move |i: &'a str| {
-        let (i, verbose) = pattern_match_verbose(i)?;
+        let (i, verbose) = pattern_match_verbose(indents)(i)?;
         if verbose {
             // verbose can only be a Container type!
             cntr::verbose(indents)(i)
-- 
2.43.0


From 5b2980039eb69f0bb9d240c20852d3213226f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:09 +0000
Subject: [PATCH 14/28] fix: read concise keys of verbose maps

---
 src/parse/cntr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index 2bce20b..3587389 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map as the usual kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From 60aba5839efeecdadfe9e440747aa9ff79222e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:18 +0000
Subject: [PATCH 15/28] fix: parse map keys once

Keys that failed to parse were tried again as inline, which took a time
exponential in the depth of keys nested in keys.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..7fa3ede 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise,
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From ac6b1d9e07bb3c2f8bd8bb98b75344a8b3411cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:36 +0000
Subject: [PATCH 16/28] fix: refuse a field without a name

---
 src/parse/names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/names.rs b/src/parse/names.rs
index 2b99062..71a59bb 100644
--- a/src/parse/names.rs
+++ b/src/parse/names.rs
@@ -34,7 +34,7 @@ pub(super) fn ident<'a, E: CxErr<'a>>(
 
 pub(super) fn field_name<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kstr<'a>, E> {
     map(
-        take_while(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
+        take_while1(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
         Kstr::brwed,
     )(i)
 }
-- 
2.43.0


From bf0a1105e80592868992b4c527ac9ceaba1dfb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:27 +0000
Subject: [PATCH 17/28] fix: do not take the fields of a verbose sequence entry
 for a map key

A field such as 'str1 = ()' was read as the start of a string used as a key.
---
 src/parse/cntr.rs       | 15 ++++++++++-----
 src/parse/heuristics.rs |  3 ++-
 src/parse/mod.rs        |  2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index 3587389..7694fbf 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -229,11 +229,16 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             // now work out if it is a map or just sequence.
             // a map as the usual kserd, followed by the colon.
 
-            // get the key (kserd:)
-            let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_concise)),
-                ignore_inline_whitespace(char(':')),
-            ))(i)?;
+            // get the key (kserd:), the fields of a verbose container are not a key
+            let (i, verbose) = pattern_match_verbose(indents + 1)(i)?;
+            let (i, key) = cond(
+                !verbose,
+                opt(terminated(
+                    ignore_inline_whitespace(uncut(kserd_concise)),
+                    ignore_inline_whitespace(char(':')),
+                )),
+            )(i)?;
+            let key = key.flatten();
 
             if let Some(key) = key {
                 let (i, value) = context(
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 2cf623e..3ab7f7e 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -84,6 +84,7 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
             || match recognise_header("[[", "]]", i).or_else(|| recognise_header("[", "]", i)) {
                 // might be a sequence with a single literal ([true]), which is _not_ indented as
                 // an entry, and is the last thing as a root
+                Some((rem, true)) if !recognise_concise(rem) => false,
                 Some((rem, true)) if indents == 0 => !rem.trim().is_empty(),
                 Some((_, true)) => {
                     let line = ws.rsplit('\n').next().unwrap_or(ws);
@@ -131,7 +132,7 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}[],='\"\r\n";
+    let not = "<>(){}[],:='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     let name = terminated(field_name, inline_whitespace);
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6f0928d..60c40cc 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -15,7 +15,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till, take_while, take_while1},
     character::complete::{alpha1, char, line_ending},
-    combinator::{all_consuming, cut, map, map_parser, opt},
+    combinator::{all_consuming, cond, cut, map, map_parser, opt},
     error::{self, context, ErrorKind, VerboseErrorKind},
     multi::{many0, separated_list0},
     sequence::{preceded, separated_pair, terminated},
-- 
2.43.0


From 86ce9572b3b744b7fb7347160bef802a79a6f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:19 +0000
Subject: [PATCH 18/28] fix: measure the inline width of values as they are
 written

Identities of units, absent identities of primitives, string prefixes, byte
arrays, tuple identities and the spaces inside maps were counted wrongly, so
values ran past the width limit or were broken up although they fit.
---
 src/fmt/solver.rs | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb2f580..cf9a802 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -54,39 +54,17 @@ fn inline_widths_recurse(
 fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
     let ident = node.id().map(|x| x.chars().count()).unwrap_or(0);
 
-    let prim_ident_width = if config.id_on_primitives {
-        ident + 3 // add three for '<> '
-    } else {
-        0
-    };
-
     match &node.val {
-        Value::Unit => {
-            if ident > 0 {
-                ident
-            } else {
-                2 // for ()
-            }
-        }
-        Value::Bool(v) => {
-            prim_ident_width
-                + if *v {
-                    4 // true
-                } else {
-                    5 // false
-                }
-        }
-        Value::Num(v) => prim_ident_width + v.to_string().chars().count(),
-        Value::Str(v) => 2 + prim_ident_width + v.escape_default().count(), // plus two for quotations
-        Value::Barr(bytes) => {
-            3 + prim_ident_width
-                + bytes.len() * 2
-                + bytes.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
+        Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => {
+            prims::write(String::new(), node, config.id_on_primitives)
+                .chars()
+                .map(|c| if c.is_control() { 2 } else { 1 }) // control characters as if escaped
+                .sum()
         }
         Value::Tuple(v) => {
             2 + v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
-                + if ident > 0 && config.id_on_tuples {
-                    ident + 1 // for space after name
+                + if config.id_on_tuples {
+                    ident // no space after name
                 } else {
                     0
                 }
@@ -112,6 +90,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         }
         Value::Map(v) => {
             2 // brackets
+			+ if v.is_empty() { 0 } else { 2 } // spaces inside brackets
 			+ v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count() // separator
 			+ v.len() * (KEYS_ASSIGNER.chars().count() + 1) // assign, plus space after			
 			+ if ident > 0 &&  config.id_on_maps {
-- 
2.43.0


From f40a0ec3dd328b0a0cebfb83645a2845edd9f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:43 +0000
Subject: [PATCH 19/28] fix: keep a value on one line when it fits the width
 limit

The concise width was looked at first, so a value that fits on one line was
broken up when its wider concise form does not fit.
---
 src/fmt/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index cf9a802..426b3b7 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -410,12 +410,12 @@ fn min_line_repr(
     concise_widths: &[usize],
 ) -> Repr {
     if let Some(lim) = lim {
-        if concise_widths[idx] > lim {
-            Repr::Verbose
-        } else if inline_widths[idx] > lim {
+        if inline_widths[idx] <= lim {
+            Repr::Inline
+        } else if concise_widths[idx] <= lim {
             Repr::Concise
         } else {
-            Repr::Inline
+            Repr::Verbose
         }
     } else {
         Repr::Inline
-- 
2.43.0


From 87cb851b9af1ee0274c6a8b54659af1ed557999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:15 +0000
Subject: [PATCH 20/28] fix: count the columns of values inside verbose
 sequences and maps

The fields of a container in a verbose sequence are indented, and a concise
value in a verbose map starts after its key. Neither was counted, so lines ran
past the width limit.
---
 src/fmt/solver.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 426b3b7..05a4910 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -322,7 +322,15 @@ fn calculate_offset(node: Node, fmts: &[Fmt], inline_widths: &[usize]) -> usize
             let add = match fmts.get(parent.index()).unwrap().line {
                 Inline => 0,
                 Concise => concise_parent_child_column(parent.value(), &child, fmts, inline_widths),
-                Verbose => verbose_parent_child_column(parent.value(), &child),
+                Verbose => match (parent.value(), fmts.get(child.index()).unwrap().line) {
+                    // a verbose container is indented below its entry header
+                    (NodeValue::Seq(_), Verbose) => INDENT,
+                    // a concise value comes after its key
+                    (NodeValue::Map(m), Concise) => {
+                        map_entry_offset(m, &child, fmts, inline_widths)
+                    }
+                    (pvalue, _) => verbose_parent_child_column(pvalue, &child),
+                },
             };
 
             offset += add;
-- 
2.43.0


From 883ee09f936027c37810e7ed3e92c85bdcccab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 21/28] fix: measure the concise width of values as they are
 written

Absent identities were counted as a space, and empty values as a bracket.
---
 src/fmt/solver.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 05a4910..2fbf9cf 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -63,7 +63,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         }
         Value::Tuple(v) => {
             2 + v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
-                + if config.id_on_tuples {
+                + if ident > 0 && config.id_on_tuples {
                     ident // no space after name
                 } else {
                     0
@@ -215,29 +215,33 @@ fn concise_width(node: &Kserd, config: &FormattingConfig) -> usize {
         Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => {
             inline_width(node, config)
         } // same as inline width
+        // empty values are always inline
+        Value::Tuple(v) | Value::Seq(v) if v.is_empty() => inline_width(node, config),
+        Value::Cntr(v) if v.is_empty() => inline_width(node, config),
+        Value::Map(v) if v.is_empty() => inline_width(node, config),
         Value::Tuple(_) => {
-            1 + if config.id_on_tuples {
-                ident + 1 // for space after name
+            1 + if ident > 0 && config.id_on_tuples {
+                ident // no space after name
             } else {
                 0
             }
         }
         Value::Cntr(_) => {
-            1 + if config.id_on_containers {
+            1 + if ident > 0 && config.id_on_containers {
                 ident + 1 // for space after name
             } else {
                 0
             }
         }
         Value::Seq(_) => {
-            1 + if config.id_on_seqs {
+            1 + if ident > 0 && config.id_on_seqs {
                 ident + 1 // for space after name
             } else {
                 0
             }
         }
         Value::Map(_) => {
-            1 + if config.id_on_maps {
+            1 + if ident > 0 && config.id_on_maps {
                 ident + 1 // for space after name
             } else {
                 0
-- 
2.43.0


From 4c8dd6777bd342d766a87825447deb06a0122ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:22 +0000
Subject: [PATCH 22/28] fix: count the indent of values inside concise values
 of a verbose container

---
 src/fmt/solver.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 2fbf9cf..a30e6b5 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -315,8 +315,10 @@ fn calculate_offset(node: Node, fmts: &[Fmt], inline_widths: &[usize]) -> usize
         // the first one is concise _or_ inline
         let mut offset = match fmts.get(parent.index()).unwrap().line {
             Inline => 0,
-            Concise | Verbose => {
-                concise_parent_child_column(parent.value(), &node, fmts, inline_widths)
+            Concise => concise_parent_child_column(parent.value(), &node, fmts, inline_widths),
+            // fields and entries are not indented
+            Verbose => {
+                concise_parent_child_column(parent.value(), &node, fmts, inline_widths) - INDENT
             }
         };
 
@@ -341,11 +343,7 @@ fn calculate_offset(node: Node, fmts: &[Fmt], inline_widths: &[usize]) -> usize
             child = parent;
         }
 
-        if fmts.get(child.index()).unwrap().line == Repr::Verbose {
-            offset.saturating_sub(INDENT)
-        } else {
-            offset
-        }
+        offset
     } else {
         0
     }
-- 
2.43.0


From 8ab8fd33648c42a2b2eb03f5e457bbb72f3164c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:14 +0000
Subject: [PATCH 23/28] fix: refuse integers beyond 128 bits and read any
 separators

lexical wraps on some 39 digit integers instead of reporting the overflow,
and underflows on separators next to zeros ("0_", "_0"). Parse the digits
with the standard library instead.
---
 src/ds/num.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 471da38..d2d8276 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -226,13 +226,10 @@ impl fmt::Display for Number {
 impl FromStr for Number {
     type Err = IntoNumberErr;
     fn from_str(s: &str) -> Result<Self, IntoNumberErr> {
-        use ::lexical_core::parse_with_options as parse;
         if s.is_empty() {
             return Err(IntoNumberErr);
         }
 
-        const FMT: u128 = ::lexical_core::format::OCAML_STRING;
-        let options = &::lexical_core::ParseIntegerOptions::new();
         let bytes = s.as_bytes();
         let neg = bytes[0] == b'-';
         let valid_int = bytes
@@ -241,15 +238,15 @@ impl FromStr for Number {
             .all(|b| b.is_ascii_digit() || *b == b'_');
 
         if !valid_int {
-            ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
-        } else if neg {
-            parse::<i128, FMT>(bytes, options)
-                .map(Int)
-                .map_err(|_| IntoNumberErr)
+            return ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr);
+        }
+
+        // the std parser detects every overflow
+        let digits = s.replace('_', "");
+        if neg {
+            digits.parse().map(Int).map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(bytes, options)
-                .map(Uint)
-                .map_err(|_| IntoNumberErr)
+            digits.parse().map(Uint).map_err(|_| IntoNumberErr)
         }
     }
 }
-- 
2.43.0


From 1715e7ec19d97ef1d277e5382cd7ef097198f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:35 +0000
Subject: [PATCH 24/28] fix: decode tuple structs that store a single element

A tuple struct with all but one element skipped encodes as a named tuple of
one element. Decoding took that for a newtype struct and refused it.
---
 src/encode/decoder.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..8cf91db 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -184,7 +184,20 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     forward_to_deserialize_any! {
         bool str string
         bytes byte_buf option unit newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        map struct identifier ignored_any
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: usize,
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            // an identity does not make a single element a newtype here
+            Value::Tuple(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     de_integer! { unsigned =>
-- 
2.43.0


From 601d1efc36e13453f82b1265ce82ede3c0a2f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:07 +0000
Subject: [PATCH 25/28] fix: decode structs without stored fields from text

A container without fields is written as "Name ()", which parses as an empty
tuple. Decoding a struct or struct variant from it was refused.
---
 src/encode/decoder.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 8cf91db..71fe8d5 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -184,7 +184,20 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     forward_to_deserialize_any! {
         bool str string
         bytes byte_buf option unit newtype_struct seq tuple
-        map struct identifier ignored_any
+        map identifier ignored_any
+    }
+
+    fn deserialize_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            // a container without fields is written, and so parsed, as an empty tuple
+            Value::Tuple(seq) if seq.is_empty() => visitor.visit_map(no_fields()),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     fn deserialize_tuple_struct<V: Visitor<'de>>(
@@ -350,6 +363,7 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            Value::Tuple(seq) if seq.is_empty() => visitor.visit_map(no_fields()),
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
@@ -360,6 +374,10 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
 
 ////// FUNCTIONS ///////////////////////////////////////////////////////////////
 
+fn no_fields<'de>() -> impl de::MapAccess<'de, Error = Error> {
+    MapDeserializer::new(std::iter::empty::<(&str, Kserd)>())
+}
+
 fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
     match val {
         Value::Unit => Unexpected::Unit,
-- 
2.43.0


From f66ac44e81afbd1b953ffc5fa31645983e1956d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:38 +0000
Subject: [PATCH 26/28] fix: decode empty arrays from text

An array without elements is written as "()", which parses as unit and was
refused.
---
 src/encode/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 71fe8d5..6ef82eb 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,7 +183,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
+        bytes byte_buf option unit newtype_struct seq
         map identifier ignored_any
     }
 
@@ -200,6 +200,16 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Res<V::Value> {
+        match self.0.val {
+            // a tuple without elements is written, and so parsed, as unit
+            Value::Unit if len == 0 => {
+                visitor.visit_seq(SeqDeserializer::new(List::new().into_iter()))
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_tuple_struct<V: Visitor<'de>>(
         self,
         _: &'static str,
-- 
2.43.0


From d5f16a3a017372d57f438dc111e37f96806977ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:45 +0000
Subject: [PATCH 27/28] fix: refuse lists longer than the tuple they are
 decoded to

The elements left over were dropped without notice.
---
 src/encode/decoder.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 6ef82eb..6ac4132 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -169,14 +169,14 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
             Value::Tuple(mut seq) => match (seq.len(), id.as_ref().map(|x| x.as_str())) {
                 (0, Some("None")) => visitor.visit_none(),
                 (1, Some("Some")) => visitor.visit_some(Decoder(seq.pop().expect("only one item"))),
-                (1, None) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                (1, None) => visit_list(seq, visitor),
                 (1, _) => visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item"))),
-                _ => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                _ => visit_list(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
-            Value::Seq(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            Value::Seq(seq) => visit_list(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
         }
     }
@@ -203,9 +203,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Res<V::Value> {
         match self.0.val {
             // a tuple without elements is written, and so parsed, as unit
-            Value::Unit if len == 0 => {
-                visitor.visit_seq(SeqDeserializer::new(List::new().into_iter()))
-            }
+            Value::Unit if len == 0 => visit_list(List::new(), visitor),
             _ => self.deserialize_any(visitor),
         }
     }
@@ -218,7 +216,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     ) -> Res<V::Value> {
         match self.0.val {
             // an identity does not make a single element a newtype here
-            Value::Tuple(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            Value::Tuple(seq) => visit_list(seq, visitor),
             _ => self.deserialize_any(visitor),
         }
     }
@@ -347,9 +345,7 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
         V: Visitor<'de>,
     {
         match self.0.val {
-            Value::Tuple(v) if v.len() == len => {
-                visitor.visit_seq(SeqDeserializer::new(v.into_iter()))
-            }
+            Value::Tuple(v) if v.len() == len => visit_list(v, visitor),
             Value::Tuple(v) => {
                 let msg = format!("a tuple with {} element(s) was expected", len);
                 Err(de::Error::invalid_length(v.len(), &msg.as_str()))
@@ -384,6 +380,14 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
 
 ////// FUNCTIONS ///////////////////////////////////////////////////////////////
 
+fn visit_list<'de, V: Visitor<'de>>(list: List<'de>, visitor: V) -> Res<V::Value> {
+    let mut seq = SeqDeserializer::new(list.into_iter());
+    let value = visitor.visit_seq(&mut seq)?;
+    // elements which the visitor left would be lost
+    seq.end()?;
+    Ok(value)
+}
+
 fn no_fields<'de>() -> impl de::MapAccess<'de, Error = Error> {
     MapDeserializer::new(std::iter::empty::<(&str, Kserd)>())
 }
-- 
2.43.0


From 111458e821aa599196caa130524dbf340651c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:02 +0000
Subject: [PATCH 28/28] fix: decode borrowed field names as borrowed strings

A container's field names were always handed to the target type as owned
strings. A map with borrowed string keys could not be decoded from a parsed
container, although its names are borrowed from the text.
---
 src/encode/decoder.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 6ac4132..6a81392 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -174,7 +174,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
                 _ => visit_list(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
-                map.into_iter().map(|(k, v)| (k.inner, v)),
+                map.into_iter().map(|(k, v)| (FieldName(k), v)),
             )),
             Value::Seq(seq) => visit_list(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
@@ -292,6 +292,45 @@ impl<'de> de::IntoDeserializer<'de, Error> for Kserd<'de> {
     }
 }
 
+/// A container's field name. A borrowed name is passed on as borrowed.
+struct FieldName<'de>(Kstr<'de>);
+
+impl<'de> de::Deserializer<'de> for FieldName<'de> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
+        match self.0.inner {
+            Borrowed(v) => visitor.visit_borrowed_str(v),
+            Owned(v) => visitor.visit_string(v),
+        }
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        self.0
+            .inner
+            .into_deserializer()
+            .deserialize_enum(name, variants, visitor)
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
+impl<'de> de::IntoDeserializer<'de, Error> for FieldName<'de> {
+    type Deserializer = Self;
+    fn into_deserializer(self) -> Self {
+        self
+    }
+}
+
 impl<'de> de::EnumAccess<'de> for Decoder<'de> {
     type Error = Error;
     type Variant = Decoder<'de>;
@@ -367,7 +406,7 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
     {
         match self.0.val {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
-                map.into_iter().map(|(k, v)| (k.inner, v)),
+                map.into_iter().map(|(k, v)| (FieldName(k), v)),
             )),
             Value::Tuple(seq) if seq.is_empty() => visitor.visit_map(no_fields()),
             x => Err(de::Error::invalid_type(
-- 
2.43.0

