From cc82872421cc609c3206cad589dc38b66cca7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 01/31] fix: quoted string without closing quote no longer
 loops forever

Running out of input inside a quoted scalar is now a parse error, and an
escaped backslash in front of the closing quote is no longer taken as an
escaped quote.
---
 src/parser/base/grammar.rs |  7 ++++++-
 src/parser/mod.rs          | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..f890f1d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -91,7 +91,12 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(&[b'\n', b'\r', b'\\', sym]), TakeOpt::More(0))?;
                 v.push_str(&p.text());
                 p.forward();
-                if p.sym_seq(ignore).is_ok() {
+                if p.food().is_empty() {
+                    return p.err("quoted string terminator");
+                } else if sym == b'"' && p.sym_seq(b"\\\\").is_ok() {
+                    // Escaped backslash, it never escapes the next character
+                    v.push_str("\\\\");
+                } else if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
                 } else if let Ok(mut t) = p.gap(false) {
                     if v.ends_with('\\') {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..8bd04c1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,6 +18,10 @@
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
 //!
+//! ## Scalar
+//!
+//! + quoted string terminator: The closing quote of a quoted string is missing.
+//!
 //! ## Structure
 //!
 //! ### Flow Array
@@ -280,9 +284,10 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
-            R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if self.food().starts_with(b"'") {
+            R::new_rc(Yaml::Str(self.string_quoted(b'\'', b"''")?))
+        } else if self.food().starts_with(b"\"") {
+            let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From 4b466136b5a52d7e669af221bed18a78194f3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/31] fix: undefined tag handle is a parse error instead of a
 panic

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f890f1d..b658993 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -300,7 +300,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("undefined tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8bd04c1..7bda65a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -20,6 +20,7 @@
 //!
 //! ## Scalar
 //!
+//! + undefined tag handle: The tag handle `!name!` is not defined by `%TAG`.
 //! + quoted string terminator: The closing quote of a quoted string is missing.
 //!
 //! ## Structure
@@ -238,7 +239,11 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = match self.tag() {
+            Ok(tag) => tag,
+            Err(PError::Mismatch) => String::new(),
+            Err(e) => return Err(e),
+        };
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From 083df62262ce7776d596935d1cbe5b52d8c2d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 03/31] fix: comparing numbers out of range no longer panics,
 hash agrees with eq

---
 src/yaml.rs | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..873ed21 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -53,6 +53,19 @@ pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
 
+/// Get the key which identifies the float value in the comparison.
+///
+/// All of the NaN have the same key, and so do the positive and negative zero.
+fn float_key(n: f64) -> u64 {
+    if n.is_nan() {
+        f64::NAN.to_bits()
+    } else if n == 0. {
+        0
+    } else {
+        n.to_bits()
+    }
+}
+
 /// YAML data types, but it is recommended to use [`Node`] for shorten code.
 ///
 /// This type can convert from primitive types by `From` and `Into` traits.
@@ -79,7 +92,9 @@ pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
 /// );
 /// ```
 ///
-/// The digit NaN (not-a-number) will be equal in the comparison.
+/// The digit NaN (not-a-number) will be equal in the comparison. The integers
+/// and floats are compared and hashed by their value, or by their text if the
+/// text has no value in the range of [`i64`] / [`f64`].
 pub enum Yaml<R: Repr> {
     /// Null
     Null,
@@ -139,11 +154,17 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                match to_i64(s) {
+                    Ok(n) => n.hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                match to_f64(s) {
+                    Ok(n) => float_key(n).hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +191,16 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => match (to_i64(s1), to_i64(s2)) {
+                (Ok(n1), Ok(n2)) => n1 == n2,
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
+            (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
+                (Ok(f1), Ok(f2)) => float_key(f1) == float_key(f2),
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From f47b426b2c55938c0d6fa1dc965015529448ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 04/31] fix: octal and hexadecimal integers match exactly their
 digits

---
 src/parser/base/grammar.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index b658993..6d2a48b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -39,16 +39,12 @@ impl Parser<'_> {
 
     fn octal(&mut self) -> PResult<()> {
         self.sym(b'o')?;
-        self.take_while(Self::ascii_digit(8), TakeOpt::More(1))
+        self.take_while(|c| matches!(c, b'0'..=b'7'), TakeOpt::More(1))
     }
 
     fn hexadecimal(&mut self) -> PResult<()> {
         self.sym(b'x')?;
-        self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
-    }
-
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+        self.take_while(u8::is_ascii_hexdigit, TakeOpt::More(1))
     }
 
     /// Match float.
-- 
2.43.0


From c9dba96e8c97a87fc0abfc83b295f8620355c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 05/31] fix: the end of the document is a boundary of numbers,
 indicators and keys

---
 src/parser/base/grammar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6d2a48b..33793c3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -8,7 +8,12 @@ use core::cmp::Ordering;
 /// [`Parser::backward`] if mismatched.
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
+    ///
+    /// The end of the document is also a boundary.
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -141,7 +146,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From 0b9fddce7c0b7107bb4e097dd44953f250fe14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 06/31] fix: numbers end at a comment or a tab, and not inside
 a plain string

---
 src/parser/base/grammar.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 33793c3..f69f69e 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -25,6 +25,16 @@ impl Parser<'_> {
         self.bound()
     }
 
+    /// Match the end of a number and keep the gaps, a comment can follow them.
+    fn num_bound(&mut self) -> PResult<()> {
+        let gaps = self.count(|p| p.ws(TakeOpt::More(0)))?;
+        if gaps > 0 && self.food().starts_with(b"#") {
+            Ok(())
+        } else {
+            self.bound()
+        }
+    }
+
     fn num_prefix(&mut self) -> PResult<()> {
         self.sym(b'-').unwrap_or_default();
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))
@@ -37,8 +47,7 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
@@ -58,10 +67,7 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -72,10 +78,7 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
-- 
2.43.0


From 0366068e7d6b0321a2c0e15ed98ba67ae4a3c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 07/31] fix: unterminated flow collections are parse errors
 instead of null

---
 src/parser/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7bda65a..162b436 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -28,12 +28,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The closing `]` bracket is missing.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The closing `}` bracket is missing.
 //!
 //! ### Array
 //!
@@ -330,7 +332,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -354,9 +358,7 @@ impl<R: Repr> Loader<'_, R> {
                 let k = self
                     .scalar(level + 1, false, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
-                }
+                self.gap(true).unwrap_or_default();
                 k
             } else {
                 self.scalar_flow(level + 1, true)
@@ -373,7 +375,9 @@ impl<R: Repr> Loader<'_, R> {
             m.push((k, v));
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From 4a4e31baa05967f6b9d1cd01ee0cd26ef6c53d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 08/31] fix: blanks before : and , are accepted in flow maps

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 162b436..0bce384 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -364,6 +364,7 @@ impl<R: Repr> Loader<'_, R> {
                 self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
@@ -373,6 +374,7 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
                 if self.sym(b'}').is_err() {
-- 
2.43.0


From f8e2614a8921be556e44d3cc83803c5505f00355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 09/31] fix: plain string at zero indent no longer loops
 forever at a line break

---
 src/parser/base/grammar.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f69f69e..225a355 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -165,21 +165,19 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(true) {
-                        if t == 1 {
-                            v.push(' ');
-                        }
-                        for _ in 0..t - 1 {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                } else if let Ok(t) = p.gap(true) {
+                    if t == 1 {
+                        v.push(' ');
+                    }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                    if p.ind(level).is_err() {
                         break;
                     }
                     is_leading = true;
+                } else {
+                    break;
                 }
             }
             v.truncate(v.trim_end().len());
-- 
2.43.0


From 49481e5863be9bf9a1d1d2c47274d8efed345896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 10/31] fix: dump empty collections as [] and {}, and no longer
 panic on an empty map

---
 src/dumper.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..52d6f9c 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -91,6 +91,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     doc += s;
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Seq(v) => {
                 let mut buf = NL.to_string();
                 for (i, node) in v.iter().enumerate() {
@@ -113,21 +115,28 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &ind;
                     }
                     let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
+                    let is_block = match k.yaml() {
+                        Yaml::Map(m) => !m.is_empty(),
+                        Yaml::Seq(v) => !v.is_empty(),
+                        _ => false,
+                    };
+                    if is_block {
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
                     } else {
                         buf += &s;
                     };
                     buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
+                    let s = match v.yaml() {
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
                             self.part(v, Root::Map, self.level)
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        _ => self.part(v, Root::Map, self.level + 1),
                     };
+                    if !s.starts_with(NL) {
+                        buf += " ";
+                    }
+                    buf += &s;
                     buf += NL;
                 }
                 buf.truncate(buf.len() - NL.len());
-- 
2.43.0


From 465a2464e7c9381ca0209e7433462a9f1e3f52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 11/31] fix: integers are deserialized without truncation, out
 of range is an error

---
 src/serde/de.rs | 87 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 20 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..60ad1dc 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -5,7 +5,7 @@ use crate::{
     to_f64, to_i64, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
-use core::marker::PhantomData;
+use core::{marker::PhantomData, str::FromStr};
 use serde::{
     de::{
         DeserializeOwned, DeserializeSeed, EnumAccess, Error, Expected, MapAccess, SeqAccess,
@@ -41,6 +41,20 @@ macro_rules! impl_deserializer {
     };
 }
 
+macro_rules! impl_int_deserializer {
+    ($(fn $method:ident => $visit:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => visitor.$visit(integer(&self, n)?),
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 /// Parse the document and deserialize nodes to a specific type.
 ///
 /// Since the document can be split into multiple parts,
@@ -90,6 +104,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +295,13 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => match (to_i64(n), n.parse(), n.parse()) {
+                (Ok(n), ..) => visitor.visit_i64(n),
+                (_, Ok(n), _) => visitor.visit_u64(n),
+                (.., Ok(n)) => visitor.visit_i128(n),
+                _ => visitor.visit_u128(integer(&self, n)?),
+            },
+            Yaml::Float(n) => visitor.visit_f64(float(&self, n)?),
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +311,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_int_deserializer! {
+        fn deserialize_i8 => visit_i8
+        fn deserialize_i16 => visit_i16
+        fn deserialize_i32 => visit_i32
+        fn deserialize_i64 => visit_i64
+        fn deserialize_u8 => visit_u8
+        fn deserialize_u16 => visit_u16
+        fn deserialize_u32 => visit_u32
+        fn deserialize_u64 => visit_u64
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_int_deserializer! {
+            fn deserialize_i128 => visit_i128
+            fn deserialize_u128 => visit_u128
         }
     }
 
@@ -343,8 +367,11 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(n) => visitor.visit_f32(float(&self, n)? as f32),
+            Yaml::Int(n) => match to_i64(n) {
+                Ok(n) => visitor.visit_f32(n as f32),
+                Err(_) => visitor.visit_f32(float(&self, n)? as f32),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +381,11 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(n) => visitor.visit_f64(float(&self, n)?),
+            Yaml::Int(n) => match to_i64(n) {
+                Ok(n) => visitor.visit_f64(n as f64),
+                Err(_) => visitor.visit_f64(float(&self, n)?),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -513,13 +543,30 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+/// Convert the text of an integer without loss, otherwise reject it.
+fn integer<R, N>(node: &Node<R>, n: &str) -> Result<N, SerdeError>
+where
+    R: Repr,
+    N: TryFrom<i64> + FromStr,
+{
+    match to_i64(n) {
+        Ok(n) => N::try_from(n).ok(),
+        Err(_) => n.parse().ok(),
+    }
+    .ok_or_else(|| SerdeError::from(format!("integer out of range: {n}")).pos(node.pos()))
+}
+
+fn float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
+    to_f64(n).map_err(|_| SerdeError::from(format!("invalid number: {n}")).pos(node.pos()))
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => to_i64(n).map_or(Unexpected::Other(n), Unexpected::Signed),
+        Yaml::Float(n) => to_f64(n).map_or(Unexpected::Other(n), Unexpected::Float),
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
-- 
2.43.0


From 8bd9ace7e9a0f98fdcb063890e0af5b3a1940a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 12/31] fix: serializing a number node out of range no longer
 panics

---
 src/serde/ser_node.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..c12914c 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -13,8 +13,17 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => match (to_i64(n), n.parse(), n.parse(), n.parse()) {
+                (Ok(n), ..) => serializer.serialize_i64(n),
+                (_, Ok(n), ..) => serializer.serialize_u64(n),
+                (_, _, Ok(n), _) => serializer.serialize_i128(n),
+                (.., Ok(n)) => serializer.serialize_u128(n),
+                _ => Err(S::Error::custom(format!("integer out of range: {n}"))),
+            },
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("invalid number: {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
-- 
2.43.0


From 60ec849ab13d63db4efee0728b75b776e2301018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 13/31] fix: a single non-ASCII character can be deserialized
 as char

---
 src/serde/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 60ad1dc..b39e0c1 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -396,7 +396,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
+                if s.chars().count() == 1 {
                     visitor.visit_char(s.chars().next().unwrap())
                 } else {
                     Err(unexpected(&self, visitor))
-- 
2.43.0


From c0e473535bfa20c12081943db2a96dfd22df7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 14/31] fix: blanks at the end of a line and on an empty line
 do not end the document

---
 src/parser/base/grammar.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 225a355..88b34c6 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -396,16 +396,23 @@ impl Parser<'_> {
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
             if cmt {
-                p.comment().unwrap_or_default();
+                // Trailing blanks, with or without a comment
+                p.ws(TakeOpt::More(0))?;
+                p.context(|p| p.comment().unwrap_or_default());
+            }
+            if p.nl().is_err() {
+                if !p.food().is_empty() {
+                    p.backward();
+                }
+                return Err(PError::Mismatch);
             }
-            p.nl()?;
             let mut t = 1;
             loop {
                 // Check point
                 p.forward();
                 p.ws(TakeOpt::More(0))?;
                 if cmt {
-                    p.comment().unwrap_or_default();
+                    p.context(|p| p.comment().unwrap_or_default());
                 }
                 if p.nl().is_err() {
                     p.backward();
-- 
2.43.0


From 81b4037b5f45c95a79c99487ca1d2db77f502ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 15/31] fix: an empty line of a block scalar can have less
 blanks than the indentation

---
 src/parser/base/grammar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 88b34c6..a10723c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -228,6 +228,8 @@ impl Parser<'_> {
                 p.nl()?;
                 p.forward();
                 if p.ind(level).is_err() {
+                    // An empty line can have less blanks than the indentation
+                    p.ws(TakeOpt::More(0))?;
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
                             v.push('\n');
@@ -236,6 +238,7 @@ impl Parser<'_> {
                             break;
                         }
                     } else {
+                        p.backward();
                         break;
                     }
                 }
-- 
2.43.0


From 6a364e9847819fc3ef3a7913424198248841da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 16/31] fix: a mismatched block scalar, tag, anchor or alias
 consumes nothing

---
 src/parser/base/grammar.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a10723c..6647d48 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -194,7 +194,11 @@ impl Parser<'_> {
         self.sym(b'|')?;
         let chomp = self.chomp();
         self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b'\n', true)?;
+        let s = self.string_wrapped(level, b'\n', true);
+        if s.is_err() {
+            self.backward();
+        }
+        let s = s?;
         Ok(chomp(s))
     }
 
@@ -203,7 +207,11 @@ impl Parser<'_> {
         self.sym(b'>')?;
         let chomp = self.chomp();
         self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b' ', false)?;
+        let s = self.string_wrapped(level, b' ', false);
+        if s.is_err() {
+            self.backward();
+        }
+        let s = s?;
         Ok(chomp(s))
     }
 
@@ -299,7 +307,7 @@ impl Parser<'_> {
     /// Match tags.
     pub fn tag(&mut self) -> PResult<String> {
         self.sym(b'!')?;
-        self.context(|p| {
+        let r = self.context(|p| {
             p.identifier().unwrap_or_default();
             let tag = p.text();
             let prefix = if !tag.is_empty() {
@@ -333,25 +341,37 @@ impl Parser<'_> {
                 }
             });
             Ok(format!("{prefix}{doc}"))
-        })
+        });
+        if r.is_err() {
+            self.backward();
+        }
+        r
     }
 
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
         self.sym(b'&')?;
-        self.context(|p| {
+        let r = self.context(|p| {
             p.identifier()?;
             Ok(p.text())
-        })
+        });
+        if r.is_err() {
+            self.backward();
+        }
+        r
     }
 
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
         self.sym(b'*')?;
-        self.context(|p| {
+        let r = self.context(|p| {
             p.identifier()?;
             Ok(p.text())
-        })
+        });
+        if r.is_err() {
+            self.backward();
+        }
+        r
     }
 
     /// Match any invisible characters except newline.
-- 
2.43.0


From d29c9ee9c2031e0cfc6e9551d6dadb2bc947795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 17/31] fix: block scalars are recognised at the end of the
 document without a line break

---
 src/parser/base/grammar.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6647d48..d274473 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -235,6 +235,13 @@ impl Parser<'_> {
             loop {
                 p.nl()?;
                 p.forward();
+                // A document marker is never a part of the string
+                if p.food().is_empty()
+                    || p.food().starts_with(b"---")
+                    || p.food().starts_with(b"...")
+                {
+                    break;
+                }
                 if p.ind(level).is_err() {
                     // An empty line can have less blanks than the indentation
                     p.ws(TakeOpt::More(0))?;
@@ -265,6 +272,10 @@ impl Parser<'_> {
                     }
                     v.push_str(s);
                 }
+                if p.food().is_empty() {
+                    // No line break at the end of the document
+                    return Ok(v + "\n");
+                }
             }
             // Keep the last wrap
             p.back(1);
-- 
2.43.0


From 91728fe7f56cd32c5e4e38d686794dfe3b128f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 18/31] fix: a complex key without its value is an error, an
 empty tag is a separate token

---
 src/parser/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0bce384..43783cf 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -242,13 +242,13 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let tag = match self.tag() {
-            Ok(tag) => tag,
+            Ok(tag) => {
+                self.bound()?;
+                tag
+            }
             Err(PError::Mismatch) => String::new(),
             Err(e) => return Err(e),
         };
-        if !tag.is_empty() {
-            self.bound()?;
-        }
         self.forward();
         let anchor2 = self.anchor().unwrap_or_default();
         if !anchor2.is_empty() {
@@ -446,8 +446,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
@@ -471,8 +471,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
-- 
2.43.0


From c1a04a417ffc0c71379ec64ef477cfea8537cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 19/31] fix: TakeOpt::Range(_, 0) matches nothing

---
 src/parser/base/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..8a1ebd8 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -154,6 +154,11 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
+            if let TakeOpt::Range(_, max) = opt {
+                if counter == max {
+                    break;
+                }
+            }
             if !f(c) {
                 break;
             }
@@ -162,11 +167,6 @@ impl Parser<'_> {
             if let TakeOpt::One = opt {
                 break;
             }
-            if let TakeOpt::Range(_, c) = opt {
-                if counter == c {
-                    break;
-                }
-            }
         }
         if pos == self.pos {
             if let TakeOpt::More(c) | TakeOpt::Range(c, _) = opt {
-- 
2.43.0


From c8d43988da70d83e8d8d460dccd853ca95c5e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 20/31] fix: the value of a flow map pair can follow a line
 break

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 43783cf..c94f49c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -369,6 +369,7 @@ impl<R: Repr> Loader<'_, R> {
                 return self.err("flow map splitter");
             }
             self.context(|p| p.bound().unwrap_or_default());
+            self.inv(TakeOpt::More(0))?;
             self.forward();
             let v = self
                 .scalar(level + 1, false, true)
-- 
2.43.0


From 8f720c321598b3f30dcf5e6d7a87ec4eec4488c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 21/31] fix: blank lines in front of a literal block scalar are
 kept as they are

---
 src/parser/base/grammar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index d274473..4563e43 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -232,6 +232,7 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            let mut is_first = true;
             loop {
                 p.nl()?;
                 p.forward();
@@ -261,7 +262,7 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
                 let s = p.text();
                 if leading {
-                    if !v.is_empty() {
+                    if !is_first {
                         v.push(char::from(sep));
                     }
                     v.push_str(&s);
@@ -272,6 +273,7 @@ impl Parser<'_> {
                     }
                     v.push_str(s);
                 }
+                is_first = false;
                 if p.food().is_empty() {
                     // No line break at the end of the document
                     return Ok(v + "\n");
-- 
2.43.0


From c15e5078d34e4b90c8ae5d45d271708d54da8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 22/31] fix: a nested block map is deeper than the key in front
 of it

---
 src/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c94f49c..71fd6f1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -436,6 +436,12 @@ impl<R: Repr> Loader<'_, R> {
                 // First item
                 if map {
                     self.gap(true)?;
+                    // A nested map is always deeper than its parent
+                    let ind = self.count(|p| {
+                        p.ind(level - 1)?;
+                        p.ws(TakeOpt::More(1))
+                    })?;
+                    self.back(ind);
                     self.ind_define(level)?;
                 } else if self.gap(true).is_ok() {
                     // Root
-- 
2.43.0


From 66295ec70cc655e50262d8522793d4c63cfe32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 23/31] fix: a comment is never the start of a plain string

---
 src/parser/base/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 4563e43..03395ea 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -140,6 +140,10 @@ impl Parser<'_> {
             patt.push(b',');
         }
         self.context(|p| {
+            if p.food().starts_with(b"#") {
+                // A comment
+                return Err(PError::Mismatch);
+            }
             let mut v = String::new();
             let mut is_leading = false;
             loop {
-- 
2.43.0


From 01e6c9ba7fa52e36197e1a56039df46f4a10e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 24/31] fix: the key behind ? in a flow map ends at its colon

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 71fd6f1..cbe8149 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -354,9 +354,10 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.forward();
             let k = if self.complex_mapping().is_ok() {
+                self.inv(TakeOpt::More(0))?;
                 self.forward();
                 let k = self
-                    .scalar(level + 1, false, true)
+                    .scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
                 self.gap(true).unwrap_or_default();
                 k
-- 
2.43.0


From 525ee7659a4327cbfe298c8633b415aa9f159eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 25/31] fix: the node of a document starts behind its gaps, an
 empty document ends at the next marker

---
 src/parser/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cbe8149..60447cb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -187,9 +187,16 @@ impl<R: Repr> Loader<'_, R> {
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
         self.context(|p| p.bound().unwrap_or_default());
+        self.gap(true).unwrap_or_default();
+        self.ind(0)?;
         self.forward();
         self.anchors.push(Anchors::new());
-        let ret = self.scalar(0, false, false)?;
+        let ret = if self.doc_end() {
+            // Empty document
+            Node::new_repr(R::new_rc(Yaml::Null), self.indicator(), "")
+        } else {
+            self.scalar(0, false, false)?
+        };
         self.gap(true).unwrap_or_default();
         self.sym_seq(b"...").unwrap_or_default();
         self.forward();
-- 
2.43.0


From 3650ca6a0ec1e82d86f5f77dcc6cbced23954c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 26/31] fix: a document marker is never a part of a plain
 string

---
 src/parser/base/grammar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 03395ea..928a498 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -170,6 +170,11 @@ impl Parser<'_> {
                     v.push_str(&p.text());
                     is_leading = false;
                 } else if let Ok(t) = p.gap(true) {
+                    // A document marker is never a part of the string
+                    if p.food().starts_with(b"---") || p.food().starts_with(b"...") {
+                        p.backward();
+                        break;
+                    }
                     if t == 1 {
                         v.push(' ');
                     }
-- 
2.43.0


From 92aa1812110e9e4de2ff909d2287568344592a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 27/31] fix: a document marker behind an anchor or a tag is not
 a key

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 60447cb..0373524 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -453,6 +453,10 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind_define(level)?;
                 } else if self.gap(true).is_ok() {
                     // Root
+                    if self.doc_end() {
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                     self.ind(level)?;
                 }
                 self.forward();
-- 
2.43.0


From 470ed1722125e6cb95f6515d4981619d8b0447df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 28/31] fix: any blanks can stand in front of the node of a
 document

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0373524..8ae1e2f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -195,6 +195,8 @@ impl<R: Repr> Loader<'_, R> {
             // Empty document
             Node::new_repr(R::new_rc(Yaml::Null), self.indicator(), "")
         } else {
+            self.ws(TakeOpt::More(0))?;
+            self.forward();
             self.scalar(0, false, false)?
         };
         self.gap(true).unwrap_or_default();
-- 
2.43.0


From 69941cfa4371f6e57efa2e46e84f17e4edc3f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 29/31] fix: blanks or a comment can end the text without a
 line break

---
 src/parser/base/grammar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 928a498..9c9082c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -460,7 +460,9 @@ impl Parser<'_> {
                     p.context(|p| p.comment().unwrap_or_default());
                 }
                 if p.nl().is_err() {
-                    p.backward();
+                    if !p.food().is_empty() {
+                        p.backward();
+                    }
                     return Ok(t);
                 }
                 t += 1;
-- 
2.43.0


From 079856ac9af4fcdcd4a29187ef310cd968d9804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 30/31] fix: blanks can stand between a quoted key and its
 colon

---
 src/parser/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8ae1e2f..3c73267 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -474,7 +474,7 @@ impl<R: Repr> Loader<'_, R> {
                 } else {
                     self.scalar_flow(level + 1, flow)?
                 };
-                if self.sym(b':').is_err() || self.bound().is_err() {
+                if self.map_splitter().is_err() {
                     // Return key
                     return Ok(k.clone_yaml());
                 }
@@ -500,7 +500,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?
                 };
-                if self.sym(b':').is_err() || self.bound().is_err() {
+                if self.map_splitter().is_err() {
                     return self.err("map splitter");
                 }
                 k
@@ -515,6 +515,14 @@ impl<R: Repr> Loader<'_, R> {
         self.backward();
         Ok(R::new_rc(m.into_iter().collect()))
     }
+
+    fn map_splitter(&mut self) -> PResult<()> {
+        self.context(|p| {
+            p.ws(TakeOpt::More(0))?;
+            p.sym(b':')?;
+            p.bound()
+        })
+    }
 }
 
 impl<'a, R: Repr> Deref for Loader<'a, R> {
-- 
2.43.0


From 2ce1eb8208ac27b9cd584d9254ecad7058710d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 31/31] fix: errors of a missing variant content carry the
 position

---
 src/serde/de.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index b39e0c1..1fd08c0 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -209,18 +209,18 @@ impl<'a, R: Repr> EnumAccess<'a> for EnumVisitor<R> {
     where
         V: DeserializeSeed<'a>,
     {
-        let visitor = VariantVisitor(self.1);
+        let visitor = VariantVisitor(self.0.pos(), self.1);
         seed.deserialize(self.0).map(|v| (v, visitor))
     }
 }
 
-struct VariantVisitor<R: Repr>(Option<Node<R>>);
+struct VariantVisitor<R: Repr>(u64, Option<Node<R>>);
 
 impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     type Error = SerdeError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        match self.0 {
+        match self.1 {
             Some(v) => Deserialize::deserialize(v),
             None => Ok(()),
         }
@@ -230,12 +230,11 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     where
         T: DeserializeSeed<'a>,
     {
-        match self.0 {
+        match self.1 {
             Some(v) => seed.deserialize(v),
-            None => Err(Error::invalid_type(
-                Unexpected::UnitVariant,
-                &"new type variant",
-            )),
+            None => Err(
+                SerdeError::invalid_type(Unexpected::UnitVariant, &"new type variant").pos(self.0),
+            ),
         }
     }
 
@@ -243,15 +242,14 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     where
         V: Visitor<'a>,
     {
-        match self.0 {
+        match self.1 {
             Some(node) => match node.yaml() {
                 Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
-            None => Err(Error::invalid_type(
-                Unexpected::TupleVariant,
-                &"tuple variant",
-            )),
+            None => Err(
+                SerdeError::invalid_type(Unexpected::TupleVariant, &"tuple variant").pos(self.0),
+            ),
         }
     }
 
@@ -263,15 +261,14 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     where
         V: Visitor<'a>,
     {
-        match self.0 {
+        match self.1 {
             Some(node) => match node.yaml() {
                 Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
                 _ => Err(unexpected(&node, "struct variant")),
             },
-            None => Err(Error::invalid_type(
-                Unexpected::UnitVariant,
-                &"struct variant",
-            )),
+            None => Err(
+                SerdeError::invalid_type(Unexpected::UnitVariant, &"struct variant").pos(self.0),
+            ),
         }
     }
 }
-- 
2.43.0

