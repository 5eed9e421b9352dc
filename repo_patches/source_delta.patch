From 56edeb5677ccba407132774408794cbd0719c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 01/37] fix: schema decoder must not allocate memory by the
 announced collection length

---
 src/value/decode.rs | 213 +++++++++++++-------------------------------
 1 file changed, 63 insertions(+), 150 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..e000c78 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -24,13 +24,11 @@
 //! Reification module: reads & writes strict values from binary strict encodings.
 
 use amplify::ascii::AsciiString;
-use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
-};
+use amplify::confinement::{U16 as MAX16, U32 as MAX32};
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{
+    DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader,
+};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -59,6 +57,43 @@ pub enum Error {
     NotEntirelyConsumed,
 }
 
+/// Number of collection items for which the memory is allocated in advance.
+const PREALLOC_ITEMS: usize = 0x100;
+
+/// Reads length of a collection with the given sizing.
+fn read_len(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<usize, DecodeError> {
+    let mut reader = StrictReader::with(d);
+    let len = if sizing.max <= u8::MAX as u64 {
+        u8::strict_decode(&mut reader)? as u64
+    } else if sizing.max <= u16::MAX as u64 {
+        u16::strict_decode(&mut reader)? as u64
+    } else if sizing.max <= u24::MAX.into_u64() {
+        u24::strict_decode(&mut reader)?.into_u64()
+    } else if sizing.max <= u32::MAX as u64 {
+        u32::strict_decode(&mut reader)? as u64
+    } else {
+        u64::strict_decode(&mut reader)?
+    };
+    Ok(len as usize)
+}
+
+/// Reads a byte string by chunks, such that the used memory doesn't exceed the size of the data.
+fn read_bytes(mut len: usize, d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
+    let mut buf = vec![];
+    while len > 0 {
+        let chunk = len.min(MAX16);
+        buf.extend(d.read_raw::<MAX16>(chunk)?);
+        len -= chunk;
+    }
+    Ok(buf)
+}
+
+fn read_ascii(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<String, DecodeError> {
+    let len = read_len(sizing, d)?;
+    let ascii = AsciiString::from_ascii(read_bytes(len, d)?).map_err(|err| err.ascii_error())?;
+    Ok(ascii.to_string())
+}
+
 impl SymbolicSys {
     pub fn strict_deserialize_type(
         &self,
@@ -88,7 +123,8 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        // The length comes from the data and can't be trusted before the items are read
+        let mut list = Vec::with_capacity(len.min(PREALLOC_ITEMS));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +139,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(PREALLOC_ITEMS));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
@@ -169,42 +205,12 @@ impl TypeSystem {
                     .ok_or_else(|| Error::TypeAbsent(spec.clone()))?
                     .is_char_enum() =>
             {
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
-                } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
-                }
+                StrictVal::String(read_ascii(sizing, reader.unbox())?)
             }
             // Restricted strings:
             Ty::Tuple(fields) if self.is_rstring(fields)? => {
                 let (_, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
-                } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
-                }
+                StrictVal::String(read_ascii(&sizing, reader.unbox())?)
             }
 
             Ty::Enum(variants) => {
@@ -258,131 +264,38 @@ impl TypeSystem {
             }
 
             // Byte strings:
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u8::MAX as u64 => {
-                let string = TinyBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u16::MAX as u64 => {
-                let string = SmallBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u24::MAX.into_u64() => {
-                let string = MediumBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
+                let d = reader.unbox();
+                let len = read_len(sizing, d)?;
+                StrictVal::Bytes(Blob(read_bytes(len, d)?))
             }
 
             // Unicode strings:
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u8::MAX as u64 => {
-                let string = TinyString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u16::MAX as u64 => {
-                let string = SmallString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u24::MAX.into_u64() => {
-                let string = MediumString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
+            Ty::List(ty, sizing) if ty.is_unicode_char() => {
+                let d = reader.unbox();
+                let len = read_len(sizing, d)?;
+                let string = String::from_utf8(read_bytes(len, d)?).map_err(DecodeError::from)?;
+                StrictVal::String(string)
             }
 
             // Other lists:
-            Ty::List(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, _) => {
-                let len = u64::strict_decode(&mut reader)?;
+            Ty::List(ty, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let len = read_len(sizing, d)?;
+                let list = self.strict_read_list(len, *ty, d)?;
                 StrictVal::List(list)
             }
             // TODO: Find a way to check for the uniqueness of the set values
-            Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, _) => {
-                let len = u64::strict_decode(&mut reader)?;
+            Ty::Set(ty, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let len = read_len(sizing, d)?;
+                let list = self.strict_read_list(len, *ty, d)?;
                 StrictVal::Set(list)
             }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len.into_usize(), *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, _sizing) => {
-                let len = u64::strict_decode(&mut reader)?;
+            Ty::Map(key_id, id, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
+                let len = read_len(sizing, d)?;
+                let list = self.strict_read_map(len, *key_id, *id, d)?;
                 StrictVal::Map(list)
             }
         };
-- 
2.43.0


From c78e317fd3b2a5b9e200ad10403eca5e3feb3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 02/37] fix: schema decoder must enforce bounds on the
 collection size

---
 src/value/decode.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index e000c78..5f36675 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -24,7 +24,7 @@
 //! Reification module: reads & writes strict values from binary strict encodings.
 
 use amplify::ascii::AsciiString;
-use amplify::confinement::{U16 as MAX16, U32 as MAX32};
+use amplify::confinement::{self, U16 as MAX16, U32 as MAX32};
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{
     DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader,
@@ -60,7 +60,7 @@ pub enum Error {
 /// Number of collection items for which the memory is allocated in advance.
 const PREALLOC_ITEMS: usize = 0x100;
 
-/// Reads length of a collection with the given sizing.
+/// Reads length of a collection and checks it against the given sizing.
 fn read_len(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<usize, DecodeError> {
     let mut reader = StrictReader::with(d);
     let len = if sizing.max <= u8::MAX as u64 {
@@ -74,7 +74,22 @@ fn read_len(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<usize, DecodeError>
     } else {
         u64::strict_decode(&mut reader)?
     };
-    Ok(len as usize)
+    let len = len as usize;
+    if !sizing.check(len) {
+        return Err(if (len as u64) < sizing.min {
+            confinement::Error::Undersize {
+                len,
+                min_len: sizing.min as usize,
+            }
+        } else {
+            confinement::Error::Oversize {
+                len,
+                max_len: sizing.max as usize,
+            }
+        }
+        .into());
+    }
+    Ok(len)
 }
 
 /// Reads a byte string by chunks, such that the used memory doesn't exceed the size of the data.
-- 
2.43.0


From 4c22f7eb1e86dfb029de9dddf09938406e4c265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 03/37] fix: arithmetic overflow in restricted string sizing

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From 65f57d07c03414321c87e94b1339e6cb961680b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 04/37] fix: schema decoder must check characters of strings
 against the character set

---
 src/value/decode.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 5f36675..4191a0a 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -109,6 +109,17 @@ fn read_ascii(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<String, DecodeErr
     Ok(ascii.to_string())
 }
 
+/// Checks that all characters of a string belong to the set defined by the enum type.
+fn check_charset(s: &str, charset: &Ty<SemId>, spec: &TypeSpec) -> Result<(), DecodeError> {
+    let Ty::Enum(variants) = charset else {
+        return Ok(());
+    };
+    match s.bytes().find(|c| !variants.has_tag(*c)) {
+        Some(c) => Err(DecodeError::EnumTagNotKnown(spec.to_string(), c)),
+        None => Ok(()),
+    }
+}
+
 impl SymbolicSys {
     pub fn strict_deserialize_type(
         &self,
@@ -220,12 +231,18 @@ impl TypeSystem {
                     .ok_or_else(|| Error::TypeAbsent(spec.clone()))?
                     .is_char_enum() =>
             {
-                StrictVal::String(read_ascii(sizing, reader.unbox())?)
+                let s = read_ascii(sizing, reader.unbox())?;
+                check_charset(&s, &self[*sem_id], &spec)?;
+                StrictVal::String(s)
             }
             // Restricted strings:
             Ty::Tuple(fields) if self.is_rstring(fields)? => {
-                let (_, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
-                StrictVal::String(read_ascii(&sizing, reader.unbox())?)
+                let (rest, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
+                let s = read_ascii(&sizing, reader.unbox())?;
+                let pos = s.len().min(1);
+                check_charset(&s[..pos], &self[fields[0]], &spec)?;
+                check_charset(&s[pos..], &self[rest], &spec)?;
+                StrictVal::String(s)
             }
 
             Ty::Enum(variants) => {
-- 
2.43.0


From 53c18b85a9568768ac6735153a100444bca6e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 05/37] fix: schema decoder must refuse repeated set elements
 and map keys

---
 src/value/decode.rs | 26 +++++++++++++++++++++++++-
 src/value/encode.rs |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 4191a0a..d96677c 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,6 +23,8 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsciiString;
 use amplify::confinement::{self, U16 as MAX16, U32 as MAX32};
 use amplify::num::{u24, u40, u48, u56};
@@ -174,6 +176,23 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Detects repeated values by comparing their encodings.
+    fn has_repeated<'val>(
+        &self,
+        vals: impl IntoIterator<Item = &'val StrictVal>,
+        ty: SemId,
+    ) -> Result<bool, Error> {
+        let mut seen = BTreeSet::new();
+        for val in vals {
+            let mut buf = Vec::new();
+            self.strict_write_val(val, ty, &mut buf).map_err(DecodeError::from)?;
+            if !seen.insert(buf) {
+                return Ok(true);
+            }
+        }
+        Ok(false)
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -317,17 +336,22 @@ impl TypeSystem {
                 let list = self.strict_read_list(len, *ty, d)?;
                 StrictVal::List(list)
             }
-            // TODO: Find a way to check for the uniqueness of the set values
             Ty::Set(ty, sizing) => {
                 d = reader.unbox();
                 let len = read_len(sizing, d)?;
                 let list = self.strict_read_list(len, *ty, d)?;
+                if self.has_repeated(&list, *ty)? {
+                    return Err(DecodeError::RepeatedSetValue.into());
+                }
                 StrictVal::Set(list)
             }
             Ty::Map(key_id, id, sizing) => {
                 d = reader.unbox();
                 let len = read_len(sizing, d)?;
                 let list = self.strict_read_map(len, *key_id, *id, d)?;
+                if self.has_repeated(list.iter().map(|(key, _)| key), *key_id)? {
+                    return Err(DecodeError::RepeatedMapValue.into());
+                }
                 StrictVal::Map(list)
             }
         };
diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..723177b 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -88,7 +88,7 @@ impl TypeSystem {
         self.strict_write_val(&typed.val, typed.orig.id, writer)
     }
 
-    fn strict_write_val(
+    pub(super) fn strict_write_val(
         &self,
         val: &StrictVal,
         sem_id: SemId,
-- 
2.43.0


From 1348112d56d7ca6187dd402e36f3bd0fd5aed2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 06/37] fix: schema decoder panics on unicode characters

---
 src/value/decode.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index d96677c..a916675 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -105,6 +105,19 @@ fn read_bytes(mut len: usize, d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeErr
     Ok(buf)
 }
 
+/// Reads a single UTF-8 character.
+fn read_char(d: &mut impl ReadRaw) -> Result<String, DecodeError> {
+    let mut buf = d.read_raw::<MAX16>(1)?;
+    let rest = match buf[0] {
+        0xC0..=0xDF => 1,
+        0xE0..=0xEF => 2,
+        0xF0..=0xF7 => 3,
+        _ => 0,
+    };
+    buf.extend(d.read_raw::<MAX16>(rest)?);
+    String::from_utf8(buf).map_err(DecodeError::from)
+}
+
 fn read_ascii(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<String, DecodeError> {
     let len = read_len(sizing, d)?;
     let ascii = AsciiString::from_ascii(read_bytes(len, d)?).map_err(|err| err.ascii_error())?;
@@ -239,9 +252,7 @@ impl TypeSystem {
                     }
                 }
             }
-            Ty::UnicodeChar => {
-                todo!()
-            }
+            Ty::UnicodeChar => StrictVal::String(read_char(reader.unbox())?),
 
             // ASCII strings:
             Ty::List(sem_id, sizing)
-- 
2.43.0


From 9ba40f78c617c0c0f98a5997bde79024d36e3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 07/37] fix: type checker must check integer values against the
 width of the type

---
 src/value/encode.rs | 10 +++++---
 src/value/typify.rs | 62 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 723177b..f017f6f 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -120,8 +120,9 @@ impl TypeSystem {
             }
             (StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                let mut le_bytes = num.to_le_bytes().to_vec();
+                le_bytes.resize(bytes_count, 0x00);
+                writer.write_all(&le_bytes)?;
             }
             (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
@@ -130,8 +131,9 @@ impl TypeSystem {
             }
             (StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                let mut le_bytes = num.to_le_bytes().to_vec();
+                le_bytes.resize(bytes_count, if num.is_negative() { 0xFF } else { 0x00 });
+                writer.write_all(&le_bytes)?;
             }
 
             (StrictVal::String(s), Ty::UnicodeChar) => {
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..7e07a2b 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -25,6 +25,7 @@
 
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
+use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
@@ -117,13 +118,38 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+    fn fits_uint(&self, val: u64) -> bool;
+    fn fits_int(&self, val: i64) -> bool;
+    fn fits_big_uint(&self, val: &u1024) -> bool;
+    fn fits_big_int(&self, val: &i1024) -> bool;
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    fn is_small_unsigned(&self) -> bool {
+        matches!(self.into_code(), 0x01..=0x08) || *self == Primitive::BYTE
+    }
+    fn is_large_unsigned(&self) -> bool { matches!(self.into_code(), 0x09..=0x3f) }
+    fn is_small_signed(&self) -> bool { matches!(self.into_code(), 0x41..=0x48) }
+    fn is_large_signed(&self) -> bool { matches!(self.into_code(), 0x49..=0x7f) }
+
+    fn fits_uint(&self, val: u64) -> bool {
+        let bits = self.byte_size() as u32 * 8;
+        bits >= u64::BITS || val >> bits == 0
+    }
+    fn fits_int(&self, val: i64) -> bool {
+        let bits = self.byte_size() as u32 * 8;
+        bits >= i64::BITS || matches!(val >> (bits - 1), 0 | -1)
+    }
+    fn fits_big_uint(&self, val: &u1024) -> bool {
+        let bytes = val.to_le_bytes();
+        bytes.iter().skip(self.byte_size() as usize).all(|byte| *byte == 0)
+    }
+    fn fits_big_int(&self, val: &i1024) -> bool {
+        let bytes = val.to_le_bytes();
+        let size = (self.byte_size() as usize).min(bytes.len());
+        let sign = if bytes[size - 1] & 0x80 == 0 { 0x00 } else { 0xFF };
+        bytes.iter().skip(size).all(|byte| *byte == sign)
+    }
 }
 
 impl SymbolicSys {
@@ -170,30 +196,36 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
+            (val @ StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() && prim.fits_uint(num) =>
             {
                 val
             }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() =>
+            {
+                StrictVal::Number(StrictNum::BigUint(num.into()))
+            }
             (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
+                if prim.is_small_signed()
+                    && i64::try_from(val).map_or(false, |val| prim.fits_int(val)) =>
             {
                 StrictVal::Number(StrictNum::Int(val as i64))
             }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
+            (StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.fits_big_uint(&num) =>
             {
-                val
+                StrictVal::Number(StrictNum::BigUint(num))
             }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
+            (val @ StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim))
+                if prim.is_small_signed() && prim.fits_int(num) =>
             {
                 val
             }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
-                if prim.is_large_signed() =>
+            (StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim))
+                if prim.is_large_signed() && prim.fits_big_int(&num) =>
             {
-                val
+                StrictVal::Number(StrictNum::BigInt(num))
             }
 
             // Collection bounds check:
-- 
2.43.0


From 826771f9867ac9cdb6816fbf24b9ba9ed91453bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 08/37] fix: type checker must check length and items of
 arrays, which must be serializable

---
 src/value/encode.rs | 12 +++++++++---
 src/value/typify.rs | 25 +++++++++++++++++++------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index f017f6f..4ccfbe0 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -32,7 +32,7 @@ use encoding::{
 
 use crate::typify::TypedVal;
 use crate::value::{EnumTag, StrictNum};
-use crate::{SemId, StrictVal, Ty, TypeSystem};
+use crate::{SemId, StrictVal, Ty, TypeRef, TypeSystem};
 
 #[derive(Clone, Debug)]
 pub struct SerializedType<const MAX_LEN: usize>(Confined<Vec<u8>, 0, MAX_LEN>);
@@ -144,10 +144,16 @@ impl TypeSystem {
                 debug_assert_eq!(vec.len(), *len as usize);
                 writer.write_all(vec)?;
             }
-            (StrictVal::String(s), Ty::Array(_, len)) => {
-                debug_assert_eq!(s.len(), *len as usize);
+            (StrictVal::String(s), Ty::Array(id, len)) => {
+                debug_assert!(id.is_unicode_char() || s.len() == *len as usize);
                 writer.write_all(s.as_bytes())?;
             }
+            (StrictVal::List(list), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(list.len(), *len as usize);
+                for val in list {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
 
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 7e07a2b..ee5d9e1 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -230,19 +230,25 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if id.is_unicode_char() && s.chars().count() != *len as usize =>
             {
-                return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
+                return Err(Error::OutOfBounds(
+                    spec,
+                    s.chars().count(),
+                    Sizing::fixed(*len as u64),
+                ));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(id, len))
+                if !id.is_unicode_char() && s.len() != *len as usize =>
+            {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -275,7 +281,14 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
                 StrictVal::String(s)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
 
             // RString
             (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-- 
2.43.0


From 4d42628bc2b59b8b81e75da28e8f1022dfbfb627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 09/37] fix: type checker must check characters and length of
 strings

---
 src/value/typify.rs | 57 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index ee5d9e1..f684165 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -31,7 +31,7 @@ use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
 
 use super::{Blob, StrictVal};
-use crate::ast::EnumVariants;
+use crate::ast::{EnumVariants, UnnamedFields};
 use crate::typesys::{SymbolicSys, TypeFqn, TypeSymbol};
 use crate::value::{EnumTag, StrictNum};
 use crate::{SemId, Ty, TypeRef, TypeSystem};
@@ -165,6 +165,25 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    /// Types of the first and the rest of characters of a restricted string and its sizing.
+    fn rstring(&self, fields: &UnnamedFields<SemId>) -> Option<(SemId, SemId, Sizing)> {
+        if !self.is_rstring(fields).ok()? {
+            return None;
+        }
+        let (rest, sizing) = self.rstring_sizing(fields).ok()??;
+        Some((fields[0], rest, sizing))
+    }
+
+    /// Checks that a string consists of characters of an ASCII character set.
+    fn is_charset_str(&self, s: &str, charset: SemId) -> bool {
+        match self.find(charset) {
+            Some(ty @ Ty::Enum(variants)) if ty.is_char_enum() => {
+                s.bytes().all(|c| variants.has_tag(c))
+            }
+            _ => false,
+        }
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -268,17 +287,22 @@ impl TypeSystem {
 
             // Ascii or other sub-byte character
             (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
+                let name = en.name_by_tag(s.as_bytes()[0]).expect("checked in match");
+                StrictVal::enumer(name.clone())
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
-                if ty.is_unicode_char() && s.len() == 1 =>
+                if ty.is_unicode_char() && s.chars().count() == 1 =>
             {
                 StrictVal::String(s)
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
+            (StrictVal::String(s), Ty::Array(id, _))
+                if id.is_unicode_char()
+                    || (id.is_byte() && s.is_ascii())
+                    || self.is_charset_str(&s, *id) =>
+            {
                 StrictVal::String(s)
             }
             (StrictVal::List(s), Ty::Array(id, _)) => {
@@ -291,7 +315,28 @@ impl TypeSystem {
             }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
+            (value @ (StrictVal::Tuple(_) | StrictVal::List(_)), Ty::Tuple(fields))
+                if self.rstring(fields).is_some() =>
+            {
+                return Err(Error::TypeMismatch {
+                    value,
+                    expected: ty.clone(),
+                });
+            }
+            (StrictVal::String(s), Ty::Tuple(fields)) if self.rstring(fields).is_some() => {
+                let (first, rest, sizing) = self.rstring(fields).expect("checked in match");
+                if !sizing.check(s.len()) {
+                    return Err(Error::OutOfBounds(spec, s.len(), sizing));
+                }
+                if !s.is_ascii()
+                    || !self.is_charset_str(&s[..1], first)
+                    || !self.is_charset_str(&s[1..], rest)
+                {
+                    return Err(Error::TypeMismatch {
+                        value: StrictVal::String(s),
+                        expected: ty.clone(),
+                    });
+                }
                 /* Invalid: we need to preserve string structure
                 let first = fields.first().expect("checked length");
                 let rest = fields.last().expect("checked length");
@@ -309,7 +354,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
+            (StrictVal::String(s), Ty::List(id, _)) if self.is_charset_str(&s, *id) => {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
-- 
2.43.0


From 963bb141060b9fdfc46889d0b3a0e8b8dbe58314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 10/37] fix: list of unicode characters must be serialized as a
 string

---
 src/value/typify.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index f684165..631cf7d 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -276,11 +276,14 @@ impl TypeSystem {
             (StrictVal::Bytes(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
-            (StrictVal::List(s), Ty::List(_, sizing)) | (StrictVal::Set(s), Ty::Set(_, sizing))
-                if !sizing.check(s.len()) =>
+            (StrictVal::List(s), Ty::List(id, sizing))
+                if !id.is_unicode_char() && !sizing.check(s.len()) =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
+            (StrictVal::Set(s), Ty::Set(_, sizing)) if !sizing.check(s.len()) => {
+                return Err(Error::OutOfBounds(spec, s.len(), *sizing));
+            }
             (StrictVal::Map(s), Ty::Map(_, _, sizing)) if !sizing.check(s.len()) => {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
@@ -358,6 +361,16 @@ impl TypeSystem {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
+            (StrictVal::List(s), Ty::List(id, sizing)) if id.is_unicode_char() => {
+                let mut string = String::new();
+                for item in s {
+                    string.push_str(self.typify(item, *id)?.val.unwrap_string().as_str());
+                }
+                if !sizing.check(string.len()) {
+                    return Err(Error::OutOfBounds(spec, string.len(), *sizing));
+                }
+                StrictVal::String(string)
+            }
             (StrictVal::List(s), Ty::List(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
                 for item in s {
-- 
2.43.0


From a4eadb7cd917032c2aa20db6cbdda621b4330e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 11/37] fix: type checker must check number of items in a list
 representing a tuple

---
 src/value/typify.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 631cf7d..1f70a02 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -450,7 +450,17 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
+            (StrictVal::List(items), Ty::Tuple(fields_req)) if fields_req.len() == 1 => {
+                // this is either a list of fields or a newtype wrapper over a list
+                let inner = match <[StrictVal; 1]>::try_from(items) {
+                    Ok([item]) => self.typify(item.clone(), fields_req[0]).or_else(|err| {
+                        self.typify(StrictVal::List(vec![item]), fields_req[0]).map_err(|_| err)
+                    })?,
+                    Err(items) => self.typify(StrictVal::List(items), fields_req[0])?,
+                };
+                StrictVal::Tuple(vec![inner.val])
+            }
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
             {
                 return Err(Error::FieldNumberMismatch {
-- 
2.43.0


From a114ccb5c0b1968554c776941cc3be52f66a793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 12/37] fix: type checker must require each field of a
 structure given as a map exactly once

---
 src/value/typify.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 1f70a02..6a14577 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -510,8 +510,21 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        return Err(Error::RepeatedKeyValue(
+                            spec,
+                            StrictVal::String(fname.to_string()),
+                        ));
+                    }
                     new.insert(fname, checked.val);
                 }
+                if new.len() != fields_req.len() {
+                    return Err(Error::FieldNumberMismatch {
+                        spec,
+                        expected: fields_req.len(),
+                        found: new.len(),
+                    });
+                }
                 StrictVal::Struct(new)
             }
 
-- 
2.43.0


From 83fad97dc4bcbb86f02b8576615ccfce7bb6142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 13/37] fix: type checker misses repeated set elements and map
 keys given in different notations

---
 src/value/typify.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 6a14577..9ca6c95 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,6 +23,8 @@
 
 //! Checks strict values against provied strict type specification.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::num::{i1024, u1024};
@@ -174,6 +176,13 @@ impl TypeSystem {
         Some((fields[0], rest, sizing))
     }
 
+    /// Encoding of a value, which is the same for all notations of the value.
+    fn encoded(&self, typed: &TypedVal) -> Vec<u8> {
+        let mut buf = Vec::new();
+        self.strict_write_value(typed, &mut buf).expect("typified values are serializable");
+        buf
+    }
+
     /// Checks that a string consists of characters of an ASCII character set.
     fn is_charset_str(&self, s: &str, charset: SemId) -> bool {
         match self.find(charset) {
@@ -381,9 +390,10 @@ impl TypeSystem {
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
+                let mut seen = BTreeSet::new();
                 for item in s {
                     let checked = self.typify(item, *id)?;
-                    if new.contains(&checked.val) {
+                    if !seen.insert(self.encoded(&checked)) {
                         return Err(Error::RepeatedSetValue(spec, checked.val));
                     }
                     new.push(checked.val);
@@ -392,10 +402,11 @@ impl TypeSystem {
             }
             (StrictVal::Map(s), Ty::Map(key_id, id, _)) => {
                 let mut new = Vec::<(StrictVal, StrictVal)>::with_capacity(s.len());
+                let mut seen = BTreeSet::new();
                 for (key, item) in s {
                     let checked_key = self.typify(key, *key_id)?;
                     let checked_val = self.typify(item, *id)?;
-                    if new.iter().any(|(k, _)| k == &checked_key.val) {
+                    if !seen.insert(self.encoded(&checked_key)) {
                         return Err(Error::RepeatedKeyValue(spec, checked_key.val));
                     }
                     new.push((checked_key.val, checked_val.val));
-- 
2.43.0


From d1a7523cceec42272d7786ae995aff21ba5129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 14/37] fix: type checker must check content of the `none`
 variant

---
 src/value/typify.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 9ca6c95..3589d99 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -540,16 +540,18 @@ impl TypeSystem {
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let none = *fields.ty_by_tag(0).expect("optional always have `None`");
+                StrictVal::union("none", self.typify(StrictVal::Unit, none)?.val)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    let none = *fields.ty_by_tag(0).expect("optional always have `None`");
+                    StrictVal::union("none", self.typify(StrictVal::Unit, none)?.val)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From b8d9f5682034e578ec0ce7b2140d715c9d3867df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 15/37] fix: iteration over members of types with 255 members
 never ends

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From d490e14c20f1f628678b6f3148f4d6d1100e3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 16/37] fix: compilation of a symbolic library with recursive
 or unknown types never ends

---
 src/typelib/symbolic.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..1eb3a9d 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,18 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Finds a type name used at any depth of the definition for which the predicate doesn't hold.
+fn unknown_name(
+    ty: &Ty<TranspileRef>,
+    is_known: impl Fn(&TypeName) -> bool + Copy,
+) -> Option<&TypeName> {
+    ty.type_refs().find_map(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => unknown_name(ty, is_known),
+        TranspileRef::Named(name) if !is_known(name) => Some(name),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +325,22 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // What is left are definitions which use unknown types or each other
+                return Err(old_types
+                    .values()
+                    .find_map(|ty| unknown_name(ty, |name| names.contains(name)).map(|n| (n, ty)))
+                    .or_else(|| {
+                        old_types.values().find_map(|ty| {
+                            unknown_name(ty, |name| index.contains_key(name)).map(|n| (n, ty))
+                        })
+                    })
+                    .map(|(unknown, within)| CompileError::UnknownType {
+                        unknown: unknown.clone(),
+                        within: within.clone(),
+                    })
+                    .expect("definition is incomplete because of some type"));
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 9128c7df0a9deeb4a172d159311350551af31a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:34 +0000
Subject: [PATCH 17/37] fix: compilation of a symbolic library loses its unused
 dependencies

---
 src/typelib/symbolic.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 1eb3a9d..2e6602f 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -343,24 +343,16 @@ impl SymbolicLib {
             }
         }
 
-        let mut used_dependencies = BTreeSet::<Dependency>::new();
         for lib in extern_types.keys() {
             if lib == &libname!(LIB_EMBEDDED) {
                 continue;
             }
-            match dependencies.iter().find(|dep| &dep.name == lib) {
-                None if !used_dependencies.iter().any(|dep| &dep.name == lib) => {
-                    return Err(CompileError::UnknownLib(lib.clone()));
-                }
-                None => {}
-                Some(dep) => {
-                    used_dependencies.insert(dep.clone());
-                }
+            if !dependencies.iter().any(|dep| &dep.name == lib) {
+                return Err(CompileError::UnknownLib(lib.clone()));
             }
         }
 
         let types = TypeMap::from_checked(new_types);
-        let dependencies = Confined::from_checked(used_dependencies);
 
         Ok(TypeLib {
             name,
-- 
2.43.0


From 9edf500b9680b3da02b571da39c334b5f5572da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:40 +0000
Subject: [PATCH 18/37] fix: compilation must refuse external types missing in
 the dependencies

---
 src/typelib/symbolic.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 2e6602f..624309b 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -286,12 +286,40 @@ fn unknown_name(
     })
 }
 
+/// Checks that all external types used in the definition are provided by the dependencies.
+fn check_externs(
+    ty: &Ty<TranspileRef>,
+    dependencies: &TinyOrdSet<Dependency>,
+    extern_types: &ExternTypes,
+) -> Result<(), CompileError> {
+    ty.type_refs().try_for_each(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => check_externs(ty, dependencies, extern_types),
+        TranspileRef::Named(_) => Ok(()),
+        TranspileRef::Extern(ext) => {
+            if !dependencies.iter().any(|dep| dep.name == ext.lib_name && dep.id == ext.lib_id) {
+                return Err(CompileError::UnknownLib(ext.lib_name.clone()));
+            }
+            match extern_types.get(&ext.lib_name).and_then(|types| types.get(&ext.sem_id)) {
+                Some(name) if name == &ext.ty_name => Ok(()),
+                _ => Err(CompileError::DependencyMissesType(
+                    ext.lib_name.clone(),
+                    ext.sem_id,
+                    ext.ty_name.clone(),
+                )),
+            }
+        }
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
         let dependencies = self.dependencies;
         let mut extern_types = self.extern_types;
         let mut old_types = self.types.release();
+        for ty in old_types.values() {
+            check_externs(ty, &dependencies, &extern_types)?;
+        }
         let mut index = TypeIndex::new();
         let mut new_types = BTreeMap::<TypeName, Ty<LibRef>>::new();
         let names = old_types.keys().cloned().collect::<BTreeSet<_>>();
-- 
2.43.0


From 160269dbd18316d285cdc2616da51d5ce49155f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 19/37] fix: armored library with multiple dependencies can't
 be parsed

---
 src/typelib/serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..641b0f8 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,10 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // Headers taking multiple lines can't be parsed back
+            let dependencies =
+                self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>();
+            headers.push(ArmorHeader::new("Dependencies", dependencies.join(", ")));
         }
         headers
     }
-- 
2.43.0


From f010676157032eb23addc3fedbe565615a6bb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 20/37] fix: finalized type system may reference types which it
 doesn't have

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From e4ff78e3d71b5a399ea40af7ab5ac91c265f11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 21/37] fix: names of a type defined in several libraries
 depend on the import order

---
 src/typesys/symbols.rs   | 10 ++++++++--
 src/typesys/translate.rs |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index c931e79..942e15a 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -21,7 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Display, Formatter};
 use std::ops::Index;
 
@@ -124,13 +124,19 @@ impl SymbolicSys {
     pub(crate) fn with(
         libs: impl IntoIterator<Item = Dependency>,
         types: BTreeMap<SemId, SymTy>,
+        names: BTreeSet<TypeSymbol>,
     ) -> Result<Self, translate::Error> {
         let mut sys = TypeSystem::new();
         let mut sym = Symbols::with(libs)?;
 
         for (sem_id, info) in types {
             sys.insert_unchecked(sem_id, info.ty)?;
-            sym.update_unchecked(sem_id, info.orig)?;
+            if info.orig.is_none() {
+                sym.update_unchecked(sem_id, None)?;
+            }
+        }
+        for TypeSymbol { id, fqn } in names {
+            sym.update_unchecked(id, fqn)?;
         }
 
         Ok(Self {
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..dafa847 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -93,6 +93,8 @@ pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
     types: BTreeMap<SemId, SymTy>,
+    /// All names of the types; the same type may be defined in several libraries.
+    names: BTreeSet<TypeSymbol>,
 }
 
 impl SystemBuilder {
@@ -109,6 +111,7 @@ impl SystemBuilder {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
             let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
+            self.names.insert(TypeSymbol::named(id, lib.name.clone(), ty_name));
             self.types.insert(id, info);
         }
 
@@ -136,7 +139,7 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        SymbolicSys::with(self.imported_deps, self.types, self.names).map_err(|err| vec![err])
     }
 
     #[allow(clippy::multiple_bound_locations)]
-- 
2.43.0


From 67513a44e71d342d1e4f82aef96981d6339cf2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 22/37] fix: enum and union definitions with repeated variant
 names must not be decoded

---
 src/ast/encoding.rs | 28 ++++++++++++++++++++++++++--
 src/ast/ty.rs       |  2 +-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..136e25c 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -21,7 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
 use amplify::confinement::TinyOrdMap;
@@ -31,9 +31,32 @@ use strict_encoding::{
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::UnionVariants;
+use crate::ast::ty::{EnumVariants, UnionVariants};
 use crate::TypeRef;
 
+// Variants compare as equal when either their tags or their names match, which isn't a transitive
+// relation, so neither sets nor maps with variants as the keys are able to detect all of the repeated
+// names.
+fn check_names<'a>(names: impl IntoIterator<Item = &'a VariantName>) -> Result<(), DecodeError> {
+    let mut unique = BTreeSet::new();
+    for name in names {
+        if !unique.insert(name) {
+            return Err(DecodeError::DataIntegrityError(format!(
+                "variant name '{name}' occurs multiple times"
+            )));
+        }
+    }
+    Ok(())
+}
+
+impl StrictDecode for EnumVariants {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let variants = reader.read_newtype::<Self>()?;
+        check_names(variants.iter().map(|variant| &variant.name))?;
+        Ok(variants)
+    }
+}
+
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = STRICT_TYPES_LIB)]
 struct VariantInfo<Ref: TypeRef> {
@@ -56,6 +79,7 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
+        check_names(read.values().map(|info| &info.name))?;
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
             inner.insert(
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..0e68a3e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -640,7 +640,7 @@ where Ref: Display
 
 #[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[wrapper(Deref)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
-- 
2.43.0


From daa357275f2bae84fb7a5a205c3659925fb0ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 23/37] fix: value paths must follow all of their steps

---
 src/value/path.rs | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..3db68c0 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -164,33 +164,26 @@ impl StrictVal {
         &self,
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
-        let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
-                if *no as usize >= fields.len() =>
-            {
-                Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
-            }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
-            (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
-                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
-                if *idx as usize >= items.len() =>
-            {
-                Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
-                Ok(&items[*idx as usize])
-            }
-            (StrictVal::Map(items), Some(Step::Key(idx))) => items
-                .iter()
-                .find(|(key, _)| idx.has_match(key))
-                .map(|(_, val)| val)
-                .ok_or(PathError::UnknownKey(idx.clone())),
-
-            (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
+        let mut val = self;
+        for step in path {
+            val = match (val, step) {
+                (StrictVal::Tuple(fields), Step::UnnamedField(no)) => fields
+                    .get(*no as usize)
+                    .ok_or(PathError::FieldNoOutOfBounds(*no, fields.len()))?,
+                (StrictVal::Struct(fields), Step::NamedField(name)) => {
+                    fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))?
+                }
+                (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx)) => items
+                    .get(*idx as usize)
+                    .ok_or(PathError::CollectionIndexOutOfBounds(*idx, items.len()))?,
+                (StrictVal::Map(items), Step::Key(idx)) => items
+                    .iter()
+                    .find(|(key, _)| idx.has_match(key))
+                    .map(|(_, val)| val)
+                    .ok_or(PathError::UnknownKey(idx.clone()))?,
+                (val, step) => return Err(PathError::TypeMismatch(step.clone(), val.clone())),
+            };
         }
+        Ok(val)
     }
 }
-- 
2.43.0


From 15b5a451866f90ab57595bf290e69275b995cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 24/37] fix: type paths must follow all of their steps starting
 from the first one

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..7b1fa2b 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(pos)) => fields.ty_by_pos(*pos),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 5a4e8d7972e12224e6d321244cc29415fd0c6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 25/37] fix: labels of tuple fields and tags of union variants
 in type introspection

---
 src/ast/ty.rs           | 5 +++--
 src/layout/translate.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 0e68a3e..82e2695 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -325,12 +325,13 @@ impl<Ref: TypeRef> Ty<Ref> {
     pub fn case_at(&self, pos: u8) -> Option<ItemCase> {
         match self {
             Ty::Union(fields) => {
-                fields.name_by_pos(pos).map(|name| ItemCase::UnionVariant(pos, name.clone()))
+                let variant = fields.keys().nth(pos as usize)?;
+                Some(ItemCase::UnionVariant(variant.tag, variant.name.clone()))
             }
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From a8eec1f2ae086f598aa4f50c935b005ba5693ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 26/37] fix: tuples with multiple fields aren't character enums

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 82e2695..4469c71 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -196,8 +196,8 @@ impl<Ref: TypeRef> Ty<Ref> {
     pub fn map(key: Ref, val: Ref, sizing: Sizing) -> Self { Ty::Map(key, val, sizing) }
 
     pub fn is_char_enum(&self) -> bool {
-        if let Ty::Tuple(fields) = self {
-            fields.first().and_then(Ref::as_ty).map(Self::is_char_enum).unwrap_or_default()
+        if let Ty::Tuple(_) = self {
+            self.as_wrapped_ty().map(Self::is_char_enum).unwrap_or_default()
         } else if let Ty::Enum(variants) = self {
             variants.iter().all(|variant| (32..=127).contains(&variant.tag))
         } else {
-- 
2.43.0


From 1a12f0ea9b41491e3890f6582876f4adb03b66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 27/37] fix: optional types in type trees and memory layouts

---
 src/typesys/iter.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..e894e55 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -149,6 +149,13 @@ pub struct TypeTreeIter<'sys> {
     nested: Vec<NestedCase>,
 }
 
+impl TypeTreeIter<'_> {
+    /// Unions having some data in their `none` variant are not transparent.
+    fn has_empty_none(&self, ty: &Ty<SemId>) -> bool {
+        ty.iter().next().and_then(|(id, _)| self.sys.get(*id)) == Some(&Ty::UNIT)
+    }
+}
+
 impl Iterator for TypeTreeIter<'_> {
     type Item = TypeInfo;
 
@@ -167,9 +174,10 @@ impl Iterator for TypeTreeIter<'_> {
                 nested.push(NestedCase::NewType(fqn.cloned()));
                 dive = false;
                 ret = false;
-            } else if ty.is_option() {
+            } else if ty.is_option() && self.has_empty_none(ty) {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +248,11 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    // content of a transparent type takes the place of that type
+                    if !matches!(
+                        self.nested.last(),
+                        Some(NestedCase::NewType(_) | NestedCase::Option)
+                    ) {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From f64861bd1acf8ef43971f22bc0e87fd25cd50e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 28/37] fix: svtable macro refers to a non-existing constructor

---
 src/value/val.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/val.rs b/src/value/val.rs
index 92e06b9..c30eec5 100644
--- a/src/value/val.rs
+++ b/src/value/val.rs
@@ -169,7 +169,7 @@ macro_rules! svset {
 #[macro_export]
 macro_rules! svtable {
     ($val:expr) => {
-        $crate::StrictVal::table($val)
+        $crate::StrictVal::map($val)
     };
 }
 
-- 
2.43.0


From 49f40015fb2b542ea90e19a1ace1239f7b96acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 29/37] fix: pre-release and build parts of semantic versions
 are swapped

---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0


From c0eb7f6de423c3c510740d96044416e2722d1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 30/37] fix: quotes and backslashes inside strings aren't
 escaped in the text notation

---
 src/value/ston.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/value/ston.rs b/src/value/ston.rs
index d4fd844..dc60502 100644
--- a/src/value/ston.rs
+++ b/src/value/ston.rs
@@ -23,7 +23,7 @@
 
 //! Strict type object notation (STON): JSON-like text serialization for stric types.
 
-use std::fmt::{self, Display, Formatter};
+use std::fmt::{self, Display, Formatter, Write};
 
 use amplify::hex::ToHex;
 
@@ -54,7 +54,17 @@ impl Display for StrictVal {
         match self {
             StrictVal::Unit => f.write_str("(,)"),
             StrictVal::Number(n) => Display::fmt(n, f),
-            StrictVal::String(s) => write!(f, r#""{s}""#),
+            StrictVal::String(s) => {
+                f.write_str("\"")?;
+                for c in s.chars() {
+                    // Without escaping, a quote inside the string can't be told from its end
+                    if c == '"' || c == '\\' {
+                        f.write_str("\\")?;
+                    }
+                    f.write_char(c)?;
+                }
+                f.write_str("\"")
+            }
             StrictVal::Bytes(blob) => write!(f, "0x{}", blob.to_hex()),
             StrictVal::Tuple(fields) => {
                 let mut iter = fields.iter();
-- 
2.43.0


From 5cd3bf3f973c0f5dc8473eb90d8325f3a31e64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 31/37] fix: keys of maps ignore the formatting options of the
 definition

---
 src/ast/ty.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 4469c71..e63d24e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -279,7 +279,9 @@ where Ref: Display
                 write!(f, "{sizing}}}")
             }
             Ty::Map(key, ty, sizing) => {
-                write!(f, "{{{key} ->{sizing} ")?;
+                f.write_str("{")?;
+                Display::fmt(key, f)?;
+                write!(f, " ->{sizing} ")?;
                 Display::fmt(ty, f)?;
                 f.write_str("}")
             }
-- 
2.43.0


From 6ef927299e603a71cb5a98fa83be2bf91d9afe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 32/37] fix: a failure to write a binary library to the
 standard output is lost

---
 src/typelib/serialize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 641b0f8..1588351 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -57,7 +57,7 @@ impl TypeLib {
 
         match format {
             StlFormat::Binary => {
-                self.strict_encode(StrictWriter::with(StreamWriter::new::<U24MAX>(file)))?;
+                self.strict_encode(StrictWriter::with(StreamWriter::new::<U24MAX>(&mut file)))?;
             }
             #[cfg(feature = "armor")]
             StlFormat::Armored => {
@@ -74,6 +74,9 @@ impl TypeLib {
                 writeln!(file, "{}", self.to_symbolic().expect("invalid library data"))?;
             }
         }
+        // The standard output keeps what isn't a complete line until the program ends, where a failure
+        // to write it is lost
+        file.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 15f0543366a994fc530fd1665a330e4c9950f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 33/37] fix: detect two types of one name which are parts of
 other types

---
 src/typelib/transpile.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..e710147 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -55,6 +55,8 @@ pub struct LibBuilder {
     pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
+    /// Rust types behind the library types which were already compiled as parts of other types
+    compiled: HashMap<(TypeName, &'static str), TranspileRef>,
     sink: StreamWriter<Sink>,
     last_compiled: Option<TranspileRef>,
 }
@@ -74,6 +76,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|d| (d, None)).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -88,6 +91,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|(d, types)| (d, Some(types))).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -245,8 +249,17 @@ impl BuilderParent for LibBuilder {
                 let lib_id = me.dependency_id(&lib_name);
                 (me, TranspileRef::Extern(SymbolRef::with(lib_name, name, lib_id, r.id())))
             }
-            (_, Some(name)) if self.types.contains_key(&name) => (self, TranspileRef::Named(name)),
-            (_, Some(_)) => _compile(self),
+            (_, Some(name)) => {
+                // The same name may belong to another Rust type, which has to be compiled to detect
+                // the conflict
+                let key = (name, std::any::type_name::<T>());
+                if let Some(r) = self.compiled.get(&key).cloned() {
+                    return (self, r);
+                }
+                let (mut me, r) = _compile(self);
+                me.compiled.insert(key, r.clone());
+                (me, r)
+            }
         }
     }
 
-- 
2.43.0


From c092600bbf54e9d8c239af0d898f442027779bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 34/37] fix: choice among versions of a dependency doesn't
 depend on the run

The order of a hash map decided which of several known libraries with the same name was used.
---
 src/typelib/transpile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index e710147..2ef877a 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -52,7 +52,8 @@ pub trait BuilderParent: StrictParent<StreamWriter<Sink>> {
 #[derive(Debug)]
 pub struct LibBuilder {
     pub(super) lib_name: LibName,
-    pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
+    // The order must not depend on a run: there may be several versions of the same library
+    pub(super) known_libs: BTreeMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
     /// Rust types behind the library types which were already compiled as parts of other types
-- 
2.43.0


From e28178061415a6b5eecec78a5a54b2db722de1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 35/37] fix: definitions with different tags or names of
 variants were equal

`Variant`s compare equal by either tag or name, so enums and unions which differ in tags or in names of variants
were equal, and a library builder silently replaced one of two such types having the same name.
---
 src/ast/ty.rs | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index e63d24e..0ea39a4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -21,6 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
+use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Debug, Display, Formatter};
 use std::ops::Deref;
@@ -508,12 +509,35 @@ where Ref: Display
     }
 }
 
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
+#[derive(Clone, Eq, Debug, From)]
 #[derive(StrictDumb, StrictType)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb" => Ref::strict_dumb()))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct UnionVariants<Ref: TypeRef>(NonEmptyOrdMap<Variant, Ref, { u8::MAX as usize }>);
 
+// `Variant`s are equal when either their tags or their names match, while different definitions
+// must not be equal
+impl<Ref: TypeRef> PartialEq for UnionVariants<Ref> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len() == other.len()
+            && self.iter().zip(other.iter()).all(|((v1, ty1), (v2, ty2))| {
+                v1.tag == v2.tag && v1.name == v2.name && ty1 == ty2
+            })
+    }
+}
+
+impl<Ref: TypeRef + Ord> PartialOrd for UnionVariants<Ref> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
+impl<Ref: TypeRef + Ord> Ord for UnionVariants<Ref> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter()
+            .map(|(v, ty)| (v.tag, &v.name, ty))
+            .cmp(other.iter().map(|(v, ty)| (v.tag, &v.name, ty)))
+    }
+}
+
 impl<Ref: TypeRef> Wrapper for UnionVariants<Ref> {
     type Inner = NonEmptyOrdMap<Variant, Ref, { u8::MAX as usize }>;
 
@@ -641,13 +665,30 @@ where Ref: Display
     }
 }
 
-#[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
+#[derive(Wrapper, Clone, Eq, Debug, From)]
 #[wrapper(Deref)]
 #[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
 
+// See the comment on the comparison of `UnionVariants`
+impl PartialEq for EnumVariants {
+    fn eq(&self, other: &Self) -> bool { self.cmp(other) == Ordering::Equal }
+}
+
+impl PartialOrd for EnumVariants {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
+impl Ord for EnumVariants {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter()
+            .map(|v| (v.tag, &v.name))
+            .cmp(other.iter().map(|v| (v.tag, &v.name)))
+    }
+}
+
 impl TryFrom<BTreeSet<Variant>> for EnumVariants {
     type Error = confinement::Error;
 
-- 
2.43.0


From 7dd5b1574769e3cc1d02c104591db958f7c89ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 36/37] fix: dependencies with different ids and the same name
 were equal

The equality contradicted the order and the hash, which use the id, and made libraries with different ids equal.
---
 src/typelib/type_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/type_lib.rs b/src/typelib/type_lib.rs
index 3741bd5..def0949 100644
--- a/src/typelib/type_lib.rs
+++ b/src/typelib/type_lib.rs
@@ -222,7 +222,7 @@ impl Hash for Dependency {
 }
 
 impl PartialEq for Dependency {
-    fn eq(&self, other: &Self) -> bool { self.id == other.id || self.name == other.name }
+    fn eq(&self, other: &Self) -> bool { self.id == other.id }
 }
 
 impl PartialOrd for Dependency {
-- 
2.43.0


From ef73611c85389647e0842c763ab9a38b53d0405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 37/37] fix: struct definitions with repeated field names must
 not be decoded

---
 src/ast/encoding.rs | 23 ++++++++++++++++++-----
 src/ast/ty.rs       |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index 136e25c..fec1e31 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -22,6 +22,7 @@
 // the License.
 
 use std::collections::{BTreeMap, BTreeSet};
+use std::fmt::Display;
 use std::io;
 
 use amplify::confinement::TinyOrdMap;
@@ -31,28 +32,40 @@ use strict_encoding::{
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::{EnumVariants, UnionVariants};
+use crate::ast::ty::{EnumVariants, NamedFields, UnionVariants};
 use crate::TypeRef;
 
 // Variants compare as equal when either their tags or their names match, which isn't a transitive
 // relation, so neither sets nor maps with variants as the keys are able to detect all of the repeated
 // names.
-fn check_names<'a>(names: impl IntoIterator<Item = &'a VariantName>) -> Result<(), DecodeError> {
+fn check_names<'a, N: Ord + Display + 'a>(
+    kind: &str,
+    names: impl IntoIterator<Item = &'a N>,
+) -> Result<(), DecodeError> {
     let mut unique = BTreeSet::new();
     for name in names {
         if !unique.insert(name) {
             return Err(DecodeError::DataIntegrityError(format!(
-                "variant name '{name}' occurs multiple times"
+                "{kind} name '{name}' occurs multiple times"
             )));
         }
     }
     Ok(())
 }
 
+// A structure value keeps its fields by their names
+impl<Ref: TypeRef> StrictDecode for NamedFields<Ref> {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let fields = reader.read_newtype::<Self>()?;
+        check_names("field", fields.iter().map(|field| &field.name))?;
+        Ok(fields)
+    }
+}
+
 impl StrictDecode for EnumVariants {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let variants = reader.read_newtype::<Self>()?;
-        check_names(variants.iter().map(|variant| &variant.name))?;
+        check_names("variant", variants.iter().map(|variant| &variant.name))?;
         Ok(variants)
     }
 }
@@ -79,7 +92,7 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
-        check_names(read.values().map(|info| &info.name))?;
+        check_names("variant", read.values().map(|info| &info.name))?;
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
             inner.insert(
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 0ea39a4..14f993f 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -368,7 +368,7 @@ where Ref: Display
 }
 
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = fields!("dumb" => Ref::strict_dumb()))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct NamedFields<Ref: TypeRef>(NonEmptyVec<Field<Ref>, { u8::MAX as usize }>);
-- 
2.43.0

