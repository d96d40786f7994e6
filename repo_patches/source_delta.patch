From ef65930f30f9adbf80329278257a07c389b1769c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 01/53] fix: reject 0x80 as the first byte of a bin_prot
 integer

Single byte integers are values < 0x80 (see the writer and the error text);
0x80 was accepted as 128, a form no writer produces.
---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From 8be35f2f336620a72a3b8ef3cd4e70bde338ecf1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 02/53] fix: from_reader_strict missed trailing bytes behind
 the read buffer

When the value ends where the BufReader has been drained (e.g. a short read,
or exactly 8192 bytes) the remaining bytes of the stream went unnoticed.
---
 protocol/bin-prot/src/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..fed5802 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,15 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
+    // the internal buffer can be empty although the stream is not, so ask for more
+    let unconsumed = loop {
+        match de.rdr.fill_buf() {
+            Ok(buf) => break buf.len(),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
+    };
+    match unconsumed {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From caac4f50ce0e6ff12c9687b7aba50a5f2e96d1a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 03/53] fix: do not allocate an untrusted string length up
 front

A length prefix near 2^64 made bin_read_string/bin_read_bytes panic with
"capacity overflow" (or abort) instead of reporting the end of the stream.
---
 protocol/bin-prot/src/read_ext.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..e4c2a81 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,13 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // the length is untrusted, so let the buffer grow with the data actually read
+        let mut buf = Vec::new();
+        let read = Read::take(&mut *self, len).read_to_end(&mut buf)?;
+        if read as u64 != len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 94e8e7d66a658c019fa7d93da9288c272496b38f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 04/53] fix: write floats and polyvar tags completely on short
 writes

`write` may accept only a part of the buffer; the rest was silently lost.
---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From 549b8cd28d3b7bc441a3edd2907abb9835cc5161 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 05/53] fix: report an out of range variant index in loose
 deserialization

The index is read from the input, so it must not index the layout unchecked.
---
 protocol/bin-prot/src/loose_deserializer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..205d12c 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,17 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .get(index as usize)
+                            .ok_or(Error::VariantIndexTooLarge {
+                                index: index as u32,
+                            })?
+                            .clone();
+                        let variant_rules = summand.ctor_args.clone();
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 3bd9a782f7be73553005d945e3b3ea5ef5e7f23f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 06/53] fix: keep polyvar variant indices aligned when a label
 is not ASCII

Filtering before enumerating shifted the index of every later variant, so the
wrong variant was decoded.
---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index fed5802..2844dcd 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -404,8 +404,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From 352450dd0f31f21504a16990ffc6b7100a4a7381 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 07/53] fix: report unsupported layout rules as errors instead
 of panicking

The deserializer already answers Err(UnimplementedRule) for these rules, but the
layout traversal panicked before it could.
---
 protocol/bin-prot/src/loose_deserializer.rs    | 8 ++++----
 protocol/bin-prot/src/value/layout/traverse.rs | 6 ++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 205d12c..8e302a9 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -68,15 +68,15 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                     Polyvar::Tagged(t) => {
                                         // return the first tagged variant where the tag matches
                                         if t.hash == tag {
-                                            Some((i, t))
+                                            Some(Ok((i, t)))
                                         } else {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => Some(Err(Error::UnimplementedRule)), // don't know how to handle these yet
                                 }
                             })
-                            .ok_or(Error::UnknownPolyvarTag(tag))?;
+                            .ok_or(Error::UnknownPolyvarTag(tag))??;
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant.clone().polyvar_args)]);
@@ -137,7 +137,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule = rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..3f762b6 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -55,9 +55,7 @@ impl Iterator for BinProtRuleIterator {
                         // Option is a special case of a Sum where the None variant contain nothing
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
-                        RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
-                        }
+                        RuleRef::Unresolved(_payload) => {} // driving code reports it as unsupported
                         RuleRef::Resolved(payload) => {
                             self.stack.push(*payload.ref_rule);
                             self.current_module_path = Some(payload.source_module_path);
@@ -79,7 +77,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported, the driving code reports these
                 };
                 r
             }
-- 
2.43.0


From b8153b9580a8c1d598d2891e9af4a3ab7004b3fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 08/53] fix: do not copy a list rule once per claimed element

The length of a list is read from the input; pushing that many copies of the
element rule exhausted memory before the missing data was noticed.
---
 .../bin-prot/src/value/layout/traverse.rs     | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 3f762b6..92a2bcd 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,7 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    pub(crate) stack: Vec<(BinProtRule, usize)>, // regular stack to implement the DFS, each rule with the number of times to visit it
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +31,15 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = match self.stack.pop() {
+            Some((rule, n)) => {
+                if n > 1 {
+                    self.stack.push((rule.clone(), n - 1));
+                }
+                Some(rule)
+            }
+            None => None,
+        };
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -42,10 +50,10 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Record(mut rules) => {
                         self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                            .extend(rules.drain(0..).map(|field| (field.field_rule, 1)).rev());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.stack.extend(rules.drain(0..).map(|rule| (rule, 1)).rev());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -57,7 +65,7 @@ impl Iterator for BinProtRuleIterator {
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {} // driving code reports it as unsupported
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.stack.push((*payload.ref_rule, 1));
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -89,12 +97,14 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
     }
 }
 
@@ -104,7 +114,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 498ae1ef61b300a39834cda970179d2227a7098e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 09/53] fix: no panic when reading a Value without a layout or
 a str target

Reading a loose type without a layout is documented to be an error, and a str is
written like a string, so it can be read like one.
---
 protocol/bin-prot/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 2844dcd..ff5f5a0 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -109,7 +109,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
@@ -199,11 +199,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         visitor.visit_char(self.rdr.bin_read_char()?)
     }
 
-    fn deserialize_str<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From e686d43ca573e2df59407321deae7a84dea6a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:35 +0000
Subject: [PATCH 10/53] fix: encode Value::Nat0 as a Nat0, not as a signed
 integer

---
 protocol/bin-prot/src/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..9ec5d25 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -16,7 +16,7 @@ impl Serialize for Value {
     {
         match *self {
             Value::Unit => serializer.serialize_unit(),
-            Value::Nat0(v) => v.serialize(serializer),
+            Value::Nat0(v) => crate::integers::nat0::serialize(&v, serializer),
             Value::Bool(b) => serializer.serialize_bool(b),
             Value::String(ref s) => s.serialize(serializer),
             Value::Char(c) => serializer.serialize_char(c as char),
-- 
2.43.0


From dbe8a0736f9db11a23af26252f5c37396972d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:09 +0000
Subject: [PATCH 11/53] fix: report a summand index that does not fit a byte
 instead of panicking

---
 protocol/bin-prot/src/loose_deserializer.rs | 24 +++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 8e302a9..8874ee6 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use byteorder::LittleEndian;
-use std::convert::TryInto;
+use std::convert::TryFrom;
 use std::io::Read;
 
 use crate::de::{Enum, LooselyTyped, MapAccess, SeqAccess};
@@ -222,14 +222,20 @@ impl<'de, 'a, R: Read> serde::de::EnumAccess<'de> for ValueEnum<'a, R, LooselyTy
         // and then return the deserializer to be handled by visit_enum
 
         let (index, enum_data) = match self.variant {
-            VariantType::Sum(summand) => (
-                summand.index as u8,
-                EnumData::Sum {
-                    index: summand.index.try_into().unwrap(),
-                    name: summand.ctor_name,
-                    len: summand.ctor_args.len(),
-                },
-            ),
+            VariantType::Sum(summand) => {
+                let index =
+                    u8::try_from(summand.index).map_err(|_| Error::VariantIndexTooLarge {
+                        index: summand.index as u32,
+                    })?;
+                (
+                    index,
+                    EnumData::Sum {
+                        index,
+                        name: summand.ctor_name,
+                        len: summand.ctor_args.len(),
+                    },
+                )
+            }
             VariantType::Polyvar(index, polyvar) => (
                 index,
                 EnumData::Polyvar {
-- 
2.43.0


From 5dbac42d06b5150755b46d5fbf18114553caded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 12/53] fix: drop the cached hashes of all ancestors of a new
 merkle leaf

---
 merkle/src/tree_impl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..d43b436 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,9 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            // Do not stop at a node without hash, the hash of an empty subtree can be [None]
+            // while its ancestors have been calculated
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From b4b3d2be1c97ffb0483b5ae45c9a2c28334bd8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 13/53] fix: get_proof of a merkle tree with a single leaf
 panicked

---
 merkle/src/tree_impl.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index d43b436..9103c7d 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -115,6 +115,10 @@ where
             } else {
                 self.variable_height
             };
+            // A tree of height 0 only has a data node, there is nothing to prove it against
+            if height_above == 0 {
+                return None;
+            }
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +137,12 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // (0 when it has a single leaf, all the nodes above are virtual then)
+            let mut parent_index = if self.nodes.is_empty() {
+                0
+            } else {
+                calculate_parent_index(self.nodes.len() + index)
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 8ade27f0839e7a030b04c77cf124df1094b84387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 14/53] fix: depth of merkle nodes with large indices was off
 by one

---
 merkle/src/metadata.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..26c6a42 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -32,7 +32,14 @@ impl MerkleTreeNodeMetadata {
 }
 
 fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+    // Integer arithmetic, floating point logarithms are off by one near large powers
+    let mut depth = 0;
+    let mut last_index = 0;
+    while last_index < index {
+        last_index = last_index.saturating_mul(DEGREE).saturating_add(DEGREE);
+        depth += 1;
+    }
+    depth
 }
 
 fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-- 
2.43.0


From 5789020dd52f134453f7f3e1dba3c01df7fa2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:38 +0000
Subject: [PATCH 15/53] fix: reject merkle proofs with a wrong number of
 siblings instead of panicking

---
 merkle/src/metadata.rs | 2 +-
 merkle/src/proof.rs    | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index 26c6a42..23c064e 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -31,7 +31,7 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
+pub(crate) fn depth<const DEGREE: usize>(index: usize) -> u32 {
     // Integer arithmetic, floating point logarithms are off by one near large powers
     let mut depth = 0;
     let mut last_index = 0;
diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..73d3626 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // There should be exactly one sibling for each level below the root
+            if self.peer_indices.len() != metadata::depth::<2>(self.index) as usize
+                || self.peer_indices.len() != self.peer_hashes.len()
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
-- 
2.43.0


From 6e2fa3b391662219e68a4e35bcc6187b983e9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:38 +0000
Subject: [PATCH 16/53] fix: report merkle paths that are empty or too long
 instead of panicking

---
 merkle/src/path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..f92782e 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,9 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        if self.0.is_empty() || self.0.len() >= usize::BITS as usize {
+            return Err(anyhow::Error::msg("Invalid path length"));
+        }
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From b6617f05c70d52ea02b1ff2fe4380934a0ee3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:25 +0000
Subject: [PATCH 17/53] fix: epoch_slot divided by zero for a block claiming
 zero slots per epoch

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..ae75c81 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
-- 
2.43.0


From 016bf60b968b5f9bc81dc7ccbf330c179a82d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:25 +0000
Subject: [PATCH 18/53] fix: chain heights and epoch counts at the u32 limit
 overflowed

---
 consensus/src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index ae75c81..6376d82 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
-- 
2.43.0


From c539e6bc6264f0151a6aecc65204b9556fba094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:25 +0000
Subject: [PATCH 19/53] fix: the projected window density of oversized sub
 windows overflowed

---
 consensus/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 6376d82..bb18a2a 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0u32, |sum, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From efe6b6646e77ae8cb432508914bd33415fd4f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:35 +0000
Subject: [PATCH 20/53] fix: frontier and network could wait for each other for
 ever once the request channel was full

---
 network/src/processor/processor_impl.rs | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/network/src/processor/processor_impl.rs b/network/src/processor/processor_impl.rs
index d7d95f7..51fdf99 100644
--- a/network/src/processor/processor_impl.rs
+++ b/network/src/processor/processor_impl.rs
@@ -74,13 +74,29 @@ where
 
     /// Schedules the event loop of sending query-block requests
     /// to the [NonConsensusNetworkingOps]
+    ///
+    /// Requests are buffered while a query is in progress: the [TransitionFrontier] must not
+    /// wait for the query to finish, as the query may be waiting for the [TransitionFrontier]
+    /// to take the block that it responds with.
     async fn run_query_block_loop(&self) {
         let mut query_block_request_receiver = self.query_block_request_receiver.write().await;
-        while let Some(request) = query_block_request_receiver.recv().await {
-            let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
-            if let Err(err) = nonconsensus_ops.query_block(&request).await {
-                error!("{err}");
+        let (pending_sender, mut pending_receiver) = mpsc::unbounded_channel();
+        tokio::join!(
+            async move {
+                while let Some(request) = query_block_request_receiver.recv().await {
+                    if pending_sender.send(request).is_err() {
+                        break;
+                    }
+                }
+            },
+            async {
+                while let Some(request) = pending_receiver.recv().await {
+                    let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
+                    if let Err(err) = nonconsensus_ops.query_block(&request).await {
+                        error!("{err}");
+                    }
+                }
             }
-        }
+        );
     }
 }
-- 
2.43.0


From bf3b47fd49051d04374229f436251fa04ffa1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 21/53] fix: verifying a command whose signer is not on the
 curve panicked

---
 base/src/user_commands/signed_command/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..1dd90e2 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,15 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string. It fails if the signer is not a point
+        // on the curve, which is possible as compressed keys are deserialized without checking that
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From 30e64026b61bf94be3e9129abf67877225343623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 22/53] fix: reading the text of a truncated memo panicked

---
 base/src/user_commands/memo.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..0e72865 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,10 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        // A deserialized memo may be shorter than it claims
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text: Vec<u8> = self.0.iter().skip(2).take(len).copied().collect();
+        String::from_utf8_lossy(&text).into()
     }
 }
 
-- 
2.43.0


From 4afa124f743558142e05c3eb71727c6d0cd6bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:43 +0000
Subject: [PATCH 23/53] fix: a command built without a memo was signed over
 zero memo bytes

---
 base/src/user_commands/memo.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 0e72865..b644ea6 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -9,13 +9,21 @@ use mina_serialization_types_macros::AutoFrom;
 use thiserror::Error;
 
 /// A memo byte strong for a signed command
-#[derive(Clone, Default, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
+#[derive(Clone, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemo)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemoJson)]
 pub struct SignedCommandMemo(pub Vec<u8>);
 
 impl_strconv_via_json!(SignedCommandMemo, SignedCommandMemoJson);
 
+impl Default for SignedCommandMemo {
+    /// The memo of a command without memo, which is the one with empty text:
+    /// every memo takes up the same number of bytes in what is signed
+    fn default() -> Self {
+        Self::try_from_text("").expect("empty text fits into a memo")
+    }
+}
+
 impl SignedCommandMemo {
     /// Try build from text
     pub fn try_from_text(s: impl AsRef<[u8]>) -> Result<Self, SignedCommandMemoError> {
-- 
2.43.0


From 7c6135077bf4defe4bcd6abf847b24e7dbdd4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 24/53] fix: a first block claiming to be of length 0 was
 replaced or refused by chance instead of weighed

---
 network/src/processor/naive_transition_frontier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/processor/naive_transition_frontier.rs b/network/src/processor/naive_transition_frontier.rs
index e904c8e..5495e8c 100644
--- a/network/src/processor/naive_transition_frontier.rs
+++ b/network/src/processor/naive_transition_frontier.rs
@@ -110,7 +110,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolStateLegacy, MerkleP
     async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
         let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
         anyhow::ensure!(block.verify(&mut ctx), "block verification failure");
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block.protocol_state)?;
         } else {
             let candidate_chains = vec![ProtocolStateChain(vec![block.protocol_state])];
@@ -170,7 +170,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolState, MerkleProofBe
         // TODO: Block verification
         let ProtocolStateWithSparseMerkleLedger(block, proofs) = block;
         let state_hash_of_new_block = block.state_hash_fp();
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block)?;
             self.sparse_merkle_ledger = proofs;
         } else {
-- 
2.43.0


From 9e69dcb0314df893bbf3f4af3f768e6aae8edc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 25/53] fix: the permission to increment the nonce was read
 from editState

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..d0c27da 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From 9d52c5737d5969ba3fdb345489647b8e017589d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 26/53] fix: reading a number that is no canonical field
 element panicked

---
 crypto/src/hash/types.rs     |  6 ++++--
 proof-systems-shim/src/fp.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crypto/src/hash/types.rs b/crypto/src/hash/types.rs
index d0f03f5..45a1798 100644
--- a/crypto/src/hash/types.rs
+++ b/crypto/src/hash/types.rs
@@ -10,7 +10,7 @@
 //! Depending on the type of hash a different byte prefix is used in the human readable form
 //!
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use mina_serialization_types::{impl_strconv_via_json, json::*, v1::*};
 use num::{BigUint, Num};
 use proof_systems::{
@@ -28,7 +28,9 @@ impl Field {
     pub fn from_str_radix(s: &str, radix: u32) -> anyhow::Result<Self> {
         let big = BigUint::from_str_radix(s, radix)?;
         let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
-        Ok(Self::from(&Fp::from(big256)))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| anyhow::anyhow!("Not a canonical field element: {s}"))?;
+        Ok(Self::from(&fp))
     }
 }
 
diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..8e12a01 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,9 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        Fp::from_repr(big256)
+            .map(Self)
+            .ok_or_else(|| <D::Error as serde::de::Error>::custom("Not a canonical field element"))
     }
 }
 
@@ -42,8 +44,8 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    Fp::from_repr(big256).ok_or_else(|| anyhow::anyhow!("Not a canonical field element: {s}"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 661bf6c0c0d98b810b0064a4b3e0a78f20e5c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 27/53] fix: the length byte inside a base58 VRF output was
 ignored

---
 protocol/serialization-types/src/consensus_state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/consensus_state.rs b/protocol/serialization-types/src/consensus_state.rs
index 9ac76fd..09b90d7 100644
--- a/protocol/serialization-types/src/consensus_state.rs
+++ b/protocol/serialization-types/src/consensus_state.rs
@@ -80,7 +80,13 @@ impl<'de> Deserialize<'de> for VrfOutputTruncatedBase58Json {
             .with_check(Some(version_bytes::VRF_TRUNCATED_OUTPUT))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(decoded.into_iter().skip(2).collect()))
+        // version byte, length byte, bytes
+        match decoded.get(1) {
+            Some(&len) if len as usize == decoded.len() - 2 => Ok(Self(decoded[2..].to_vec())),
+            _ => Err(<D::Error as serde::de::Error>::custom(
+                "Invalid length of vrf output",
+            )),
+        }
     }
 }
 
-- 
2.43.0


From 2d437db0b2a9e342803f1a520c67dddb027490a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:06 +0000
Subject: [PATCH 28/53] fix: refuse amounts with more than nine decimals, signs
 in them, or out of range

---
 base/src/numbers.rs                        | 11 +++++++----
 protocol/serialization-types/src/common.rs | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..d80f524 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,12 +143,15 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        // ensure there are no more digits than the precision allows
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
-        if iter.next().is_none() {
+        match q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r)) {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
-        } else {
-            Err(Self::Err::ErrorInvalidFormat(s.to_string()))
+            Some(amount) if iter.next().is_none() => Ok(Amount(amount)),
+            _ => Err(Self::Err::ErrorInvalidFormat(s.to_string())),
         }
     }
 }
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..8b37d59 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,16 +119,22 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        // ensure there are no more digits than the precision allows
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        if iter.next().is_none() {
+        let amount = q.checked_mul(MINA_PRECISION).and_then(|q| q.checked_add(r));
+        match amount {
             // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
-        } else {
-            Err(<D::Error as serde::de::Error>::custom(format!(
+            Some(amount) if iter.next().is_none() => Ok(Self(amount)),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-            )))
+            ))),
         }
     }
 }
-- 
2.43.0


From 1374f255230fa12da9429267c85ec373f2c43eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:06 +0000
Subject: [PATCH 29/53] fix: hex of the wrong length is an error, not a panic

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..c9a4e82 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -139,8 +139,9 @@ impl FieldElementJson {
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
         let bytes = hex::decode(s)?;
-        let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        let b32 = bytes
+            .try_into()
+            .map_err(|_| hex::FromHexError::InvalidStringLength)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From 513bef6db5e2cd071037cdae8b40eec4de12c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:08 +0000
Subject: [PATCH 30/53] fix: read and write chars and bytes that are no utf-8
 without undefined behaviour

---
 protocol/serialization-types/src/common.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 8b37d59..8f0d4b2 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -197,7 +197,7 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
+        let s = String::from_utf8(vec![self.0]).map_err(<S::Error as serde::ser::Error>::custom)?;
         serializer.serialize_str(&s)
     }
 }
@@ -208,7 +208,12 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        match s.as_bytes() {
+            [b] => Ok(Self(*b)),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid char: {s}"
+            ))),
+        }
     }
 }
 
@@ -231,7 +236,8 @@ impl Serialize for ByteVecJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(self.0.clone()) };
+        let s =
+            String::from_utf8(self.0.clone()).map_err(<S::Error as serde::ser::Error>::custom)?;
         serializer.serialize_str(&s)
     }
 }
-- 
2.43.0


From 82df366a2167f2180aaf968234ab7281781489b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:01 +0000
Subject: [PATCH 31/53] fix: a vrf output too long for its base58 form is an
 error

---
 protocol/serialization-types/src/consensus_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/consensus_state.rs b/protocol/serialization-types/src/consensus_state.rs
index 09b90d7..aaf8fce 100644
--- a/protocol/serialization-types/src/consensus_state.rs
+++ b/protocol/serialization-types/src/consensus_state.rs
@@ -61,7 +61,7 @@ impl Serialize for VrfOutputTruncatedBase58Json {
         S: Serializer,
     {
         let mut input = Vec::with_capacity(self.0.len() + 1);
-        input.push(self.0.len() as u8);
+        input.push(u8::try_from(self.0.len()).map_err(<S::Error as serde::ser::Error>::custom)?);
         input.extend_from_slice(self.0.as_slice());
         let s = bs58::encode(input.as_slice())
             .with_check_version(version_bytes::VRF_TRUNCATED_OUTPUT)
-- 
2.43.0


From e3131736eb9dd67ec0903670f27a1a6a9f1d418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 32/53] fix: report when the checker cannot write to standard
 output

---
 protocol/bin_prot_checker/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/bin_prot_checker/src/main.rs b/protocol/bin_prot_checker/src/main.rs
index 09e0399..594e12a 100644
--- a/protocol/bin_prot_checker/src/main.rs
+++ b/protocol/bin_prot_checker/src/main.rs
@@ -4,7 +4,7 @@
 use core::str::FromStr;
 use std::fs::File;
 use std::io::Seek;
-use std::io::{stdin, stdout, Read};
+use std::io::{stdin, stdout, Read, Write};
 use std::path::PathBuf;
 
 use bin_prot::{error::Error, from_reader, integers::integer, to_writer};
@@ -148,7 +148,8 @@ fn main() {
                     println!("Wrote {} bytes", pos);
                 })
             } else {
-                to_writer(&mut stdout(), &opt.test)
+                // stdout is buffered and does not report errors when it is dropped
+                to_writer(&mut stdout(), &opt.test).and_then(|_| Ok(stdout().flush()?))
             }
             .map_err(|e| eprintln!("Failed with: {}", e))
             .unwrap();
-- 
2.43.0


From 209e08b966fb575778227865a4b7049e39297a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 33/53] fix: a failed command has one failure, not a list of
 them

---
 base/src/staged_ledger_diff.rs                |  5 +---
 .../src/staged_ledger_diff.rs                 | 28 ++++++-------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/base/src/staged_ledger_diff.rs b/base/src/staged_ledger_diff.rs
index 26e8d8a..997d40d 100644
--- a/base/src/staged_ledger_diff.rs
+++ b/base/src/staged_ledger_diff.rs
@@ -98,10 +98,7 @@ impl_from_with_proxy!(
 #[auto_from(mina_serialization_types::staged_ledger_diff::TransactionStatus)]
 pub enum TransactionStatus {
     Applied(TransactionStatusAuxiliaryData, TransactionStatusBalanceData),
-    Failed(
-        Vec<TransactionStatusFailedType>,
-        TransactionStatusBalanceData,
-    ),
+    Failed(TransactionStatusFailedType, TransactionStatusBalanceData),
 }
 
 impl_from_with_proxy!(
diff --git a/protocol/serialization-types/src/staged_ledger_diff.rs b/protocol/serialization-types/src/staged_ledger_diff.rs
index e347058..89f0378 100644
--- a/protocol/serialization-types/src/staged_ledger_diff.rs
+++ b/protocol/serialization-types/src/staged_ledger_diff.rs
@@ -282,7 +282,7 @@ pub enum TransactionStatus {
         TransactionStatusBalanceDataV1,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeV1>,
+        TransactionStatusFailedTypeV1,
         TransactionStatusBalanceDataV1,
     ),
 }
@@ -296,7 +296,7 @@ enum TransactionStatusJsonProxy {
         TransactionStatusBalanceDataJson,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeJson>,
+        TransactionStatusFailedTypeJson,
         TransactionStatusBalanceDataJson,
     ),
 }
@@ -310,7 +310,7 @@ pub enum TransactionStatusJson {
         TransactionStatusBalanceDataJson,
     ),
     Failed(
-        Vec<TransactionStatusFailedTypeJson>,
+        TransactionStatusFailedTypeJson,
         TransactionStatusBalanceDataJson,
     ),
 }
@@ -403,42 +403,32 @@ enum TransactionStatusFailedTypeJsonProxy {
     IncorrectNonce,
 }
 
-#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq, AutoFrom)]
+#[derive(Clone, Debug, Eq, PartialEq, AutoFrom)]
 #[auto_from(TransactionStatusFailedType)]
 #[auto_from(TransactionStatusFailedTypeJsonProxy)]
 pub enum TransactionStatusFailedTypeJson {
-    #[serde(rename = "Predicate")]
     Predicate,
-    #[serde(rename = "Source_not_present")]
     SourceNotPresent,
-    #[serde(rename = "Receiver_not_present")]
     ReceiverNotPresent,
-    #[serde(rename = "Amount_insufficient_to_create_account")]
     AmountInsufficientToCreateAccount,
-    #[serde(rename = "Cannot_pay_creation_fee_in_token")]
     CannotPayCreationFeeInToken,
-    #[serde(rename = "Source_insufficient_balance")]
     SourceInsufficientBalance,
-    #[serde(rename = "Source_minimum_balance_violation")]
     SourceMinimumBalanceViolation,
-    #[serde(rename = "Receiver_already_exists")]
     ReceiverAlreadyExists,
-    #[serde(rename = "Not_token_owner")]
     NotTokenOwner,
-    #[serde(rename = "Mismatched_token_permissions")]
     MismatchedTokenPermissions,
-    #[serde(rename = "Overflow")]
     Overflow,
-    #[serde(rename = "Signed_command_on_snapp_account")]
     SignedCommandOnSnappAccount,
-    #[serde(rename = "Snapp_account_not_present")]
     SnappAccountNotPresent,
-    #[serde(rename = "Update_not_permitted")]
     UpdateNotPermitted,
-    #[serde(rename = "Incorrect_nonce")]
     IncorrectNonce,
 }
 
+impl_mina_enum_json_serde!(
+    TransactionStatusFailedTypeJson,
+    TransactionStatusFailedTypeJsonProxy
+);
+
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
 pub struct TransactionStatusBalanceData {
     pub fee_payer_balance: Option<ExtendedU64_3>,
-- 
2.43.0


From ddb6e1f95a5aad9efd0273dd2381f9194f00be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 34/53] fix: read and write a coinbase of two parts without fee
 transfers

---
 .../src/staged_ledger_diff.rs                 | 44 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/staged_ledger_diff.rs b/protocol/serialization-types/src/staged_ledger_diff.rs
index 89f0378..9f0f3c0 100644
--- a/protocol/serialization-types/src/staged_ledger_diff.rs
+++ b/protocol/serialization-types/src/staged_ledger_diff.rs
@@ -446,7 +446,7 @@ pub struct TransactionStatusBalanceDataJson {
     pub receiver_balance: Option<U64Json>,
 }
 
-#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq, SmartDefault)]
+#[derive(Clone, Debug, Eq, PartialEq, SmartDefault)]
 pub enum CoinBase {
     #[default]
     Zero,
@@ -454,6 +454,48 @@ pub enum CoinBase {
     Two(Option<CoinBaseFeeTransferV1>, Option<CoinBaseFeeTransferV1>),
 }
 
+/// The layout of [CoinBase], where the second fee transfer comes only with a first one
+#[derive(Serialize, Deserialize)]
+enum CoinBaseLayout<T> {
+    Zero,
+    One(Option<T>),
+    Two(Option<(T, Option<T>)>),
+}
+
+impl Serialize for CoinBase {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        match self {
+            Self::Zero => CoinBaseLayout::Zero,
+            Self::One(t) => CoinBaseLayout::One(t.as_ref()),
+            Self::Two(Some(t1), t2) => CoinBaseLayout::Two(Some((t1, t2.as_ref()))),
+            Self::Two(None, None) => CoinBaseLayout::Two(None),
+            Self::Two(None, Some(_)) => {
+                return Err(<S::Error as serde::ser::Error>::custom(
+                    "coinbase has a second fee transfer but no first one",
+                ))
+            }
+        }
+        .serialize(serializer)
+    }
+}
+
+impl<'de> Deserialize<'de> for CoinBase {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        Ok(match CoinBaseLayout::deserialize(deserializer)? {
+            CoinBaseLayout::Zero => Self::Zero,
+            CoinBaseLayout::One(t) => Self::One(t),
+            CoinBaseLayout::Two(Some((t1, t2))) => Self::Two(Some(t1), t2),
+            CoinBaseLayout::Two(None) => Self::Two(None, None),
+        })
+    }
+}
+
 pub type CoinBaseV1 = Versioned<CoinBase, 1>;
 
 #[derive(Clone, Debug, Serialize, Deserialize, SmartDefault)]
-- 
2.43.0


From d7075be4033f758805d3fcc5c35c28b1c8605c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 35/53] fix: json that is no list where an enum is expected is
 an error

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From 43429efe6e026d9479b902bd2050f45276a5c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 36/53] fix: the json form of the point at infinity is called
 Infinity

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c9a4e82..f26944d 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -93,6 +93,7 @@ pub type ECPointV1 = Versioned<ECPoint, 1>;
 enum ECPointJsonProxy {
     /// The point at infinity
     #[default]
+    #[serde(rename = "Infinity")]
     Infinite,
     /// Point on the curve
     Finite(FiniteECPointJson),
-- 
2.43.0


From 217dff8fc99637c59e2d49c8933a23ca536870cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 37/53] fix: a Merkle proof is only of the place whose siblings
 it names

The order of two siblings was taken from their indices alone, so a node could be
paired with its neighbour below another parent. A proof made for one leaf then
verified for the place next to it.
---
 merkle/src/proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 73d3626..af201e5 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -162,9 +162,11 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // Left children have odd indices. A node next to a right child on its right side
+    // (or next to a left child on its left side) belongs to another parent
+    if index % 2 == 1 && index + 1 == sibling_index {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && index == sibling_index + 1 {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From 5c3d505d31ba23bb2a6f05a17636c8b320742a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 38/53] fix: a wallet file whose nonce is not 24 bytes long
 panicked when opened

---
 secrets/src/secret_box/types_impls.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..6b888cf 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -112,11 +112,10 @@ impl SecretBox {
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
+        let nonce = GenericArray::from_exact_iter(self.nonce.iter().copied())
+            .ok_or_else(|| Error::AeadError("Invalid nonce length".into()))?;
         let mut bytes = cipher
-            .decrypt(
-                GenericArray::from_slice(self.nonce.as_slice()),
-                self.ciphertext.as_ref(),
-            )
+            .decrypt(&nonce, self.ciphertext.as_ref())
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
         bytes.remove(0);
         Ok(bytes)
-- 
2.43.0


From a218e4e79a8343a56dfa29c1738170c8c6331250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 39/53] fix: a wallet file in which nothing is sealed panicked
 when opened

---
 secrets/src/secret_box/types_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 6b888cf..ce117da 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -117,6 +117,10 @@ impl SecretBox {
         let mut bytes = cipher
             .decrypt(&nonce, self.ciphertext.as_ref())
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        // The first byte is the version of the private key
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty plaintext".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From a8379b0cac3db6a2aa97d9a343708954122cc98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 40/53] fix: wallet files with an ops limit beyond 32 bits were
 taken for others

---
 secrets/src/secret_box/types_impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index ce117da..475c451 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,8 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: u32::try_from(json.pwdiff[1])
+                .map_err(|e| Error::Argon2Error(format!("{}", e)))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
-- 
2.43.0


From 6d5e633eb16d95c75dda67f8b0096d26af7659a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 41/53] fix: wallet files with a mem limit beyond 2^42 bytes
 were taken for others

---
 secrets/src/secret_box/types_impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 475c451..f303a7e 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -85,9 +85,11 @@ impl TryInto<serde_json::Value> for SecretBox {
 
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        let m_cost = u32::try_from(self.pw_mem_limit_bytes / 1024)
+            .map_err(|e| Error::Argon2Error(format!("{}", e)))?;
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(m_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From b23032ca72b283d45d1fd654eb520e59c53c34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 42/53] fix: a failure to read the ledger database looked like
 the end of its accounts

---
 ledger/src/rocksdb_genesis_ledger.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..fb64415 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -76,12 +76,10 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
         let db_iter = self
             .db
             .prefix_iterator(&[ACCOUNT_PREFIX]) // This will ensure the iterator doesnt start until the prefix byte is matched
-            .take_while(|r| {
-                if let Ok((k, _)) = r {
-                    k.first() == Some(&ACCOUNT_PREFIX)
-                } else {
-                    false
-                }
+            .take_while(|r| match r {
+                Ok((k, _)) => k.first() == Some(&ACCOUNT_PREFIX),
+                // A failure to read the database is not the end of the accounts
+                Err(_) => true,
             }); // Ensures the iterator stops when the prefix stops matching
 
         Box::new(db_iter.map(decode_account_from_kv))
-- 
2.43.0


From 94f96f693410400b7c367277df188ecdd1bbf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 43/53] fix: an endpoint that fails keeps no other from being
 asked

---
 .../src/processor/js/graphql_api_berkeley.rs  | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/network/src/processor/js/graphql_api_berkeley.rs b/network/src/processor/js/graphql_api_berkeley.rs
index b4c4a02..51e45bb 100644
--- a/network/src/processor/js/graphql_api_berkeley.rs
+++ b/network/src/processor/js/graphql_api_berkeley.rs
@@ -63,15 +63,18 @@ impl NonConsensusGraphQLBerkeleyBackend {
 
     /// Poll latest blocks once
     pub async fn poll_latest_once(&self) -> anyhow::Result<()> {
+        // An endpoint that fails must not keep the others from being asked
+        let mut result = Ok(());
         if let Some(block_responder) = &self.block_responder {
             let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
             for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
+                match fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await {
+                    Ok(block_json) => block_responder.send(block_json).await?,
+                    Err(err) => result = result.and(Err(err)),
+                }
             }
         }
-        Ok(())
+        result
     }
 }
 
@@ -84,15 +87,7 @@ impl NonConsensusNetworkingOps for NonConsensusGraphQLBerkeleyBackend {
     }
 
     async fn query_block(&mut self, _request: &QueryBlockRequest) -> anyhow::Result<()> {
-        if let Some(block_responder) = &self.block_responder {
-            let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
-            for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
-            }
-        }
-        Ok(())
+        self.poll_latest_once().await
     }
 }
 
-- 
2.43.0


From 9e98462dcfe271266c16cd819a5095fd16d57321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 44/53] fix: a node that does not answer, or not in JSON,
 panicked the page

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 21 ++++++++---------
 apps/wasm/mvp/src/payment.rs              | 28 ++++++++++-------------
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 92c57ca..3ecfb42 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -85,10 +85,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
         .post(endpoint)
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
 
@@ -108,10 +107,9 @@ pub async fn unlock_account(
         .post(endpoint)
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
 
@@ -127,9 +125,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
         .post(endpoint)
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9086659..9146dfa 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -85,10 +85,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
         .post("http://localhost:3085/graphql")
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
 
@@ -105,10 +104,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
         .post("http://localhost:3085/graphql")
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
 
@@ -124,10 +122,9 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
         .post("http://localhost:3085/graphql")
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
 
@@ -143,9 +140,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
         .post("http://localhost:3085/graphql")
         .json(&serde_json::json!({ "query": query }))
         .send()
-        .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .await?;
+    let resp_text = res.text().await?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text)?;
     Ok(resp.to_string())
 }
-- 
2.43.0


From 5eab78d29619c5d23bf51374efbe747fe516fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 45/53] fix: texts in a page's requests were not escaped

A password with a quote in it made a request the node cannot read, or
another request than the one meant.
---
 apps/wasm/mina-berkeley/src/js_exports.rs | 12 ++++++------
 apps/wasm/mvp/src/payment.rs              | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 3ecfb42..38856b2 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -77,9 +77,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        serde_json::json!(pub_key)
     );
     let res = client
         .post(endpoint)
@@ -100,8 +100,8 @@ pub async fn unlock_account(
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", serde_json::json!(pub_key), serde_json::json!(password)
     );
     let res = client
         .post(endpoint)
@@ -118,8 +118,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from())
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9146dfa..1136187 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -77,9 +77,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "query MyQuery {{  
-            account(publicKey: \"{}\") {{ balance {{ total }} inferredNonce locked  }}
+            account(publicKey: {}) {{ balance {{ total }} inferredNonce locked  }}
         }}",
-        pub_key
+        serde_json::json!(pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -96,9 +96,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        serde_json::json!(pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -115,8 +115,8 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", serde_json::json!(pub_key), serde_json::json!(password)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -133,8 +133,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from())
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From eae482601959b9f8bd554e71f9d8f63a673f886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 46/53] fix: nonce, memo and valid until of a payment were left
 out of the request

---
 apps/wasm/mina-berkeley/src/js_exports.rs |  4 ++--
 apps/wasm/mina-berkeley/src/payment.rs    | 15 +++++++++++++++
 apps/wasm/mvp/src/payment.rs              | 19 +++++++++++++++++--
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 38856b2..3cbf101 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -118,8 +118,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from())
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}{}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from()), payment.optional_fields()?
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/payment.rs b/apps/wasm/mina-berkeley/src/payment.rs
index 1c2bc1a..5a874c2 100644
--- a/apps/wasm/mina-berkeley/src/payment.rs
+++ b/apps/wasm/mina-berkeley/src/payment.rs
@@ -70,4 +70,19 @@ impl Payment {
             }
         }
     }
+
+    /// The optional fields as they are written in a request
+    pub fn optional_fields(&self) -> Result<String, JsError> {
+        let mut fields = String::new();
+        if let Some(nonce) = self.nonce() {
+            fields += &format!(", nonce: \"{nonce}\"");
+        }
+        if let Some(memo) = self.memo() {
+            fields += &format!(", memo: {}", serde_json::json!(memo));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields += &format!(", validUntil: \"{valid_until}\"");
+        }
+        Ok(fields)
+    }
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 1136187..108d00c 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -70,6 +70,21 @@ impl Payment {
             }
         }
     }
+
+    /// The optional fields as they are written in a request
+    pub fn optional_fields(&self) -> Result<String, JsError> {
+        let mut fields = String::new();
+        if let Some(nonce) = self.nonce() {
+            fields += &format!(", nonce: \"{nonce}\"");
+        }
+        if let Some(memo) = self.memo() {
+            fields += &format!(", memo: {}", serde_json::json!(memo));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields += &format!(", validUntil: \"{valid_until}\"");
+        }
+        Ok(fields)
+    }
 }
 
 #[wasm_bindgen(js_name = accountInfo)]
@@ -133,8 +148,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from())
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}{}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, serde_json::json!(payment.to()), serde_json::json!(payment.from()), payment.optional_fields()?
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From 75db89a42d4bdba7d88f6f00a72c3c71152e8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 47/53] fix: the crawler took an error page for the block

An HTTP error whose body is JSON got a verdict.
---
 apps/tools/blocks-crawler/src/blocks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 3035dbb..5fffcce 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -94,7 +94,11 @@ pub async fn fetch_block_info(n: &str) -> Result<QueryResponse, reqwest::Error>
 pub async fn retrieve_block_json(
     block_url: &str,
 ) -> Result<serde_json::Value, Box<dyn std::error::Error>> {
-    let block_txt = reqwest::get(block_url).await?.text().await?;
+    let block_txt = reqwest::get(block_url)
+        .await?
+        .error_for_status()?
+        .text()
+        .await?;
     let mut block_json: serde_json::Value = serde_json::from_str(&block_txt)?;
     // Remove scheduled_time field as it's not part of block
     if let Some(block_mut) = block_json.as_object_mut() {
-- 
2.43.0


From b491ed9bf757e316dad853c96702faffe49b69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 48/53] fix: a block that could not be written ended the crawl

---
 apps/tools/blocks-crawler/src/blocks.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 5fffcce..7899323 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -118,9 +118,10 @@ pub fn parse_block_json(block_json: &serde_json::Value) -> Result<ExternalTransi
 pub fn write_json(op_type: &str, network: &str, block: &BlockInfo, block_json: &serde_json::Value) {
     let output_path = format!("./output/{}/{}-{}.json", op_type, network, block);
     // Save the JSON structure into file path: ./output/succeeded/
-    std::fs::write(
-        output_path,
+    if let Err(err) = std::fs::write(
+        &output_path,
         serde_json::to_string_pretty(&block_json).unwrap(),
-    )
-    .unwrap();
+    ) {
+        error!("Failed to write {}: {}", output_path, err);
+    }
 }
-- 
2.43.0


From 735ee9b2fcd4fae5f95ab346f0d86a28f3f038e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 49/53] fix: a crawl that broke off left a part of a block,
 which the next one took for checked

---
 apps/tools/blocks-crawler/src/blocks.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 7899323..352637b 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -118,10 +118,15 @@ pub fn parse_block_json(block_json: &serde_json::Value) -> Result<ExternalTransi
 pub fn write_json(op_type: &str, network: &str, block: &BlockInfo, block_json: &serde_json::Value) {
     let output_path = format!("./output/{}/{}-{}.json", op_type, network, block);
     // Save the JSON structure into file path: ./output/succeeded/
+    // Write to a temporary file first, so that there is never a part of a file at the output path
+    let temp_path = format!("./output/{}-{}.json.tmp", network, block);
     if let Err(err) = std::fs::write(
-        &output_path,
+        &temp_path,
         serde_json::to_string_pretty(&block_json).unwrap(),
-    ) {
+    )
+    .and_then(|_| std::fs::rename(&temp_path, &output_path))
+    {
         error!("Failed to write {}: {}", output_path, err);
+        let _ = std::fs::remove_file(&temp_path);
     }
 }
-- 
2.43.0


From 5aa71ebc5a2e3726af225b17c300e68f91bd6fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 50/53] verification hook: a genesis configuration taken from a
 block (cfg mina_verif)

---
 consensus/src/genesis/config.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/consensus/src/genesis/config.rs b/consensus/src/genesis/config.rs
index 7aca7f7..88f14a2 100644
--- a/consensus/src/genesis/config.rs
+++ b/consensus/src/genesis/config.rs
@@ -534,3 +534,30 @@ impl GenesisInitConfig {
         Self::mainnet()
     }
 }
+
+/// Verification hook: the configuration that names the parts of the given block
+#[cfg(mina_verif)]
+impl GenesisInitConfig {
+    #[allow(missing_docs)]
+    pub fn verif_from_block(block: &ExternalTransition, sub_windows_per_window: u32) -> Self {
+        let state = &block.protocol_state;
+        let consensus = &state.body.consensus_state;
+        let mut config = Self::mainnet();
+        config.constants = state.body.constants.clone();
+        config.sub_windows_per_window = sub_windows_per_window;
+        config.last_vrf_output = consensus.last_vrf_output.clone();
+        config.total_currency = consensus.total_currency;
+        config.sub_window_densities = consensus.sub_window_densities.clone();
+        config.staking_epoch_data = consensus.staking_epoch_data.clone();
+        config.next_epoch_data = consensus.next_epoch_data.clone();
+        config.block_stake_winner = consensus.block_stake_winner.clone();
+        config.block_creator = consensus.block_creator.clone();
+        config.coinbase_receiver = consensus.coinbase_receiver.clone();
+        config.genesis_state_hash = state.body.genesis_state_hash.clone();
+        config.previous_state_hash = state.previous_state_hash.clone();
+        config.blockchain_state = state.body.blockchain_state.clone();
+        config.protocol_state_proof = block.protocol_state_proof.clone();
+        config.delta_transition_chain_proof = block.delta_transition_chain_proof.clone();
+        config
+    }
+}
-- 
2.43.0


From 79cf16fe1678e8c1df01cdabc770fe9be743db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 51/53] fix: the wasm page refuses an address it cannot parse
 instead of panicking

---
 apps/wasm/mvp/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 225db0a..bb4a6b6 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -34,7 +34,7 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         builder.build()?
     };
 
-    let parsed_addr: Multiaddr = request.address.parse().unwrap();
+    let parsed_addr: Multiaddr = request.address.parse()?;
     log::info!(
         "[WASM] Connecting to proxy server via ws {} ... ",
         request.address
-- 
2.43.0


From e8e3ccb4179765f2a9b5e1dbcd46a05ce01afecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 52/53] fix: reading node statuses ends at the end of the
 stream instead of spinning

---
 apps/wasm/mvp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index bb4a6b6..9dae39a 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -155,6 +155,8 @@ impl RequestResponseCodec for NodeStatusCodec {
         loop {
             let mut line = String::new();
             match reader.read_line(&mut line).await {
+                // end of the stream
+                Ok(0) => break,
                 Ok(n) => {
                     let line = line.trim();
                     if !line.is_empty() {
-- 
2.43.0


From 17ee0d1c8040aa466838fabf6f2d7388d706bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 53/53] fix: a failed dial is not reported to the wasm page as
 a success

---
 apps/wasm/mvp/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 9dae39a..fe228a6 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -58,13 +58,14 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
                 }
             }
         }
-        Err(e) => log::error!("[WASM] Fail to dail: {}", e),
+        Err(e) => {
+            log::error!("[WASM] Fail to dail: {}", e);
+            let mut r = CommonResponse::new();
+            r.success = false;
+            r.error_message = e.to_string();
+            Ok(r)
+        }
     }
-    Ok({
-        let mut r = CommonResponse::new();
-        r.success = true;
-        r
-    })
 }
 
 #[derive(NetworkBehaviour)]
-- 
2.43.0

