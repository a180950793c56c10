From 4dc71593fbced811d9ea64025166c6f13385cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 01/43] fix: roll back extensions registered on existing
 messages when adding files fails

---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From 4af015bcf3ecc8a9ca9f162dd6a957341b541466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 02/43] fix: follow public imports transitively

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From d1ac5868dbc6518d58f9e1ba6ce6dfbfa45ebb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 03/43] fix: return an error instead of panicking for files
 with unknown syntax

---
 prost-reflect/src/descriptor/build/names.rs | 31 +++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..77fa1e1 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,10 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
-        let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+        let (syntax, unknown_syntax) = match file.syntax.as_deref() {
+            None | Some("proto2") => (Syntax::Proto2, None),
+            Some("proto3") => (Syntax::Proto3, None),
+            Some(syntax) => (Syntax::Proto2, Some(syntax)),
         };
 
         if self
@@ -86,6 +75,18 @@ impl Visitor for NameVisitor<'_> {
             transitive_dependencies: HashSet::default(),
         });
 
+        if let Some(syntax) = unknown_syntax {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: syntax.to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From 0e88bf889b58a91cb58cbddf1fb011b57353d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:51 +0000
Subject: [PATCH 04/43] fix: pack proto3 repeated fields which have options
 other than packed set

---
 prost-reflect/src/descriptor/build/resolve.rs | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..85e64a7 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -120,10 +122,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -391,10 +390,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -766,6 +762,20 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// Gets the explicit value of the `packed` option for a field, if it has one.
+fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .find(|u| {
+                u.name.len() == 1 && u.name[0].name_part == "packed" && !u.name[0].is_extension
+            })
+            .and_then(|u| option_to_bool(u).ok())
+    })
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
-- 
2.43.0


From bb69e283b71b70e30b1d991c6d971ae34316ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 05/43] fix: reject singular values for repeated fields

---
 prost-reflect/src/dynamic/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..2fd9477 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -648,6 +648,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            _ if field_desc.is_list() || field_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
@@ -667,6 +668,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            _ if extension_desc.is_list() || extension_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
-- 
2.43.0


From 0a7bfd4d35e1b83f057daf7e2ece7fa96f86b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 06/43] fix: reject JSON numbers 2^63 and 2^64 for 64-bit
 integer fields

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..7d32935 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -399,7 +399,8 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        // `i64::MAX` is not representable as `f64` and rounds up to 2^63, which is out of range.
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -446,7 +447,8 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        // `u64::MAX` is not representable as `f64` and rounds up to 2^64, which is out of range.
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From 0860901d564445fe2eaa030e662db6b6623a9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 07/43] fix: reject field mask paths with a trailing underscore
 when serializing

---
 prost-reflect/src/dynamic/serde/case.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 6d11c55415650da68e69fbe691a41a747f0b7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 08/43] fix: serialize non-finite floating point wrappers as
 strings in JSON

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 58 +++++++++++++---------
 prost-reflect/src/dynamic/serde/ser/wkt.rs |  6 +--
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..9ada96e 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -117,30 +117,8 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_u64(*value)
                 }
             }
-            Value::F32(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f32(*value)
-                } else if *value == f32::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f32::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
-            Value::F64(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f64(*value)
-                } else if *value == f64::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f64::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
+            Value::F32(value) => serialize_f32(*value, serializer),
+            Value::F64(value) => serialize_f64(*value, serializer),
             Value::String(value) => serializer.serialize_str(value),
             Value::Bytes(value) => {
                 serializer.collect_str(&Base64Display::new(value, &BASE64_STANDARD))
@@ -211,6 +189,38 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
     }
 }
 
+fn serialize_f32<S>(value: f32, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f32(value)
+    } else if value == f32::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f32::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
+fn serialize_f64<S>(value: f64, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f64(value)
+    } else if value == f64::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f64::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
 impl Serialize for SerializeWrapper<'_, MapKey> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..64ecdd2 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -14,7 +14,7 @@ use crate::{
     ReflectMessage,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, serialize_f32, serialize_f64, SerializeWrapper};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -131,7 +131,7 @@ where
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    serialize_f32(raw, serializer)
 }
 
 fn serialize_double<S>(
@@ -144,7 +144,7 @@ where
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    serialize_f64(raw, serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From d5ed3cee03814abcc9f21bb363140f5ab1fd401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 09/43] fix: normalize timestamps and durations before
 serializing to JSON

---
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 64ecdd2..95f1248 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -99,8 +99,9 @@ fn serialize_timestamp<S>(
 where
     S: Serializer,
 {
-    let timestamp: prost_types::Timestamp = msg.transcode_to().map_err(decode_to_ser_err)?;
+    let mut timestamp: prost_types::Timestamp = msg.transcode_to().map_err(decode_to_ser_err)?;
 
+    timestamp.normalize();
     check_timestamp(&timestamp).map_err(Error::custom)?;
 
     serializer.collect_str(&timestamp)
@@ -114,9 +115,10 @@ fn serialize_duration<S>(
 where
     S: Serializer,
 {
-    let duration: prost_types::Duration = msg.transcode_to().map_err(decode_to_ser_err)?;
+    let mut duration: prost_types::Duration = msg.transcode_to().map_err(decode_to_ser_err)?;
 
     check_duration(&duration).map_err(Error::custom)?;
+    duration.normalize();
 
     serializer.collect_str(&duration)
 }
-- 
2.43.0


From 7200df7ba9a83c7ab363ccee31093eb15757dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 10/43] fix: return an error instead of panicking for invalid
 escapes in default values

---
 prost-reflect/src/descriptor/build/resolve.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 85e64a7..e8be626 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -865,10 +865,13 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u8;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal
+                                .checked_mul(8)
+                                .and_then(|octal| octal.checked_add(src[p] - b'0'))
+                                .ok_or("octal escape out of range")?;
                             p += 1;
                         } else {
                             break;
@@ -880,8 +883,8 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
+                        Some(Ok(b)) => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From c6ebcd03c0e8ee75b3adfeb3d7f0293e0096a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 11/43] fix: treat negative zero as distinct from the default
 value

---
 prost-reflect/src/dynamic/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 2fd9477..7ecb8c0 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -619,17 +619,30 @@ impl Value {
 
     /// Returns `true` if this is the default value for the given protobuf field.
     pub fn is_default_for_field(&self, field_desc: &FieldDescriptor) -> bool {
-        *self == Value::default_value_for_field(field_desc)
+        self.is_same(&Value::default_value_for_field(field_desc))
     }
 
     /// Returns `true` if this is the default value for the given protobuf extension field.
     pub fn is_default_for_extension(&self, extension_desc: &ExtensionDescriptor) -> bool {
-        *self == Value::default_value_for_extension(extension_desc)
+        self.is_same(&Value::default_value_for_extension(extension_desc))
     }
 
     /// Returns `true` if this is the default value for the given protobuf type `kind`.
     pub fn is_default(&self, kind: &Kind) -> bool {
-        *self == kind.default_value()
+        self.is_same(&kind.default_value())
+    }
+
+    /// Equality, except that negative zero is considered distinct from positive zero.
+    fn is_same(&self, other: &Value) -> bool {
+        match (self, other) {
+            (Value::F32(lhs), Value::F32(rhs)) => {
+                lhs == rhs && lhs.is_sign_negative() == rhs.is_sign_negative()
+            }
+            (Value::F64(lhs), Value::F64(rhs)) => {
+                lhs == rhs && lhs.is_sign_negative() == rhs.is_sign_negative()
+            }
+            (lhs, rhs) => lhs == rhs,
+        }
     }
 
     /// Returns `true` if this value can be set for a given field.
-- 
2.43.0


From a56bca93674f812927d15b26e4be3b5d242be836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 12/43] fix: do not recurse infinitely when debug formatting
 recursive message types

---
 prost-reflect/src/dynamic/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 7ecb8c0..83f3a4d 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -36,12 +36,23 @@ use crate::{
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
 /// [`Message`][`prost::Message`].
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Clone, PartialEq)]
 pub struct DynamicMessage {
     desc: MessageDescriptor,
     fields: DynamicMessageFieldSet,
 }
 
+impl fmt::Debug for DynamicMessage {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // The descriptor's own debug output includes the default values of its fields, which
+        // for a recursive message type would contain this message type again.
+        f.debug_struct("DynamicMessage")
+            .field("desc", &self.desc.full_name())
+            .field("fields", &self.fields)
+            .finish()
+    }
+}
+
 /// A dynamically-typed protobuf value.
 ///
 /// Note this type may map to multiple possible protobuf wire formats, so it must be
-- 
2.43.0


From d3bb097ef1517fafc326cd62a6bbc24ea50e126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 13/43] fix: check the wire type of map fields when decoding

---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..e543811 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -351,6 +351,8 @@ impl Value {
                 }
             }
             (Value::Map(values), Kind::Message(map_entry)) if field_desc.is_map() => {
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
-- 
2.43.0


From 91dce91c75352530be9b606a558036cdb29d2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 14/43] fix: ignore entries which are not present when
 comparing dynamic messages

---
 prost-reflect/src/dynamic/fields.rs | 31 ++++++++++++++++++++++++++++-
 prost-reflect/src/dynamic/mod.rs    |  8 +++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/fields.rs b/prost-reflect/src/dynamic/fields.rs
index b77d22b..0d8bead 100644
--- a/prost-reflect/src/dynamic/fields.rs
+++ b/prost-reflect/src/dynamic/fields.rs
@@ -35,7 +35,7 @@ pub(crate) trait FieldDescriptorLike: fmt::Debug {
 }
 
 /// A set of extension fields in a protobuf message.
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Default, Debug, Clone)]
 pub(super) struct DynamicMessageFieldSet {
     fields: BTreeMap<u32, ValueOrUnknown>,
 }
@@ -349,6 +349,35 @@ impl DynamicMessageFieldSet {
             })
     }
 
+    /// Compares the present fields, extensions and unknown fields of two messages of the same type.
+    ///
+    /// Entries which are stored but not present (such as a default value in a field without presence) are ignored.
+    pub(super) fn eq(&self, other: &Self, message: &MessageDescriptor) -> bool {
+        self.iter_present(message).eq(other.iter_present(message))
+    }
+
+    fn iter_present<'a>(
+        &'a self,
+        message: &'a MessageDescriptor,
+    ) -> impl Iterator<Item = (u32, &'a ValueOrUnknown)> + 'a {
+        self.fields
+            .iter()
+            .map(|(&number, value)| (number, value))
+            .filter(move |(number, value)| match value {
+                ValueOrUnknown::Value(value) => {
+                    if let Some(field) = message.get_field(*number) {
+                        field.has(value)
+                    } else if let Some(extension) = message.get_extension(*number) {
+                        extension.has(value)
+                    } else {
+                        true
+                    }
+                }
+                ValueOrUnknown::Unknown(_) => true,
+                ValueOrUnknown::Taken => false,
+            })
+    }
+
     pub(super) fn clear_all(&mut self) {
         self.fields.clear();
     }
diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 83f3a4d..0543c29 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -36,12 +36,18 @@ use crate::{
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
 /// [`Message`][`prost::Message`].
-#[derive(Clone, PartialEq)]
+#[derive(Clone)]
 pub struct DynamicMessage {
     desc: MessageDescriptor,
     fields: DynamicMessageFieldSet,
 }
 
+impl PartialEq for DynamicMessage {
+    fn eq(&self, other: &Self) -> bool {
+        self.desc == other.desc && self.fields.eq(&other.fields, &self.desc)
+    }
+}
+
 impl fmt::Debug for DynamicMessage {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // The descriptor's own debug output includes the default values of its fields, which
-- 
2.43.0


From 320c7b945462c79670d583e83450d4c4ba5e4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 15/43] fix: ignore unknown members of google.protobuf.Empty
 when they are allowed

---
 prost-reflect/src/dynamic/serde/de/mod.rs |  2 +-
 prost-reflect/src/dynamic/serde/de/wkt.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..550e589 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -69,7 +69,7 @@ where
             .deserialize_any(wkt::GoogleProtobufValueVisitor)
             .and_then(|value| make_message(desc, value)),
         "google.protobuf.Empty" => deserializer
-            .deserialize_map(wkt::GoogleProtobufEmptyVisitor)
+            .deserialize_map(wkt::GoogleProtobufEmptyVisitor(options))
             .and_then(|empty| make_message(desc, empty)),
         _ => deserializer.deserialize_map(kind::MessageVisitor(desc, options)),
     }
diff --git a/prost-reflect/src/dynamic/serde/de/wkt.rs b/prost-reflect/src/dynamic/serde/de/wkt.rs
index 03217a7..9344bfc 100644
--- a/prost-reflect/src/dynamic/serde/de/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/de/wkt.rs
@@ -33,7 +33,7 @@ pub struct GoogleProtobufFieldMaskVisitor;
 pub struct GoogleProtobufListVisitor;
 pub struct GoogleProtobufStructVisitor;
 pub struct GoogleProtobufValueVisitor;
-pub struct GoogleProtobufEmptyVisitor;
+pub struct GoogleProtobufEmptyVisitor<'a>(pub &'a DeserializeOptions);
 
 impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
     type Value = prost_types::Any;
@@ -347,15 +347,17 @@ impl<'de> Visitor<'de> for GoogleProtobufValueVisitor {
     }
 }
 
-impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor {
+impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor<'_> {
     type Value = ();
 
     fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
     where
         A: MapAccess<'de>,
     {
-        if map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
-            return Err(Error::custom("unexpected value in map"));
+        while map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
+            if self.0.deny_unknown_fields {
+                return Err(Error::custom("unexpected value in map"));
+            }
         }
 
         Ok(())
-- 
2.43.0


From 770652ecb7f39b4eccafe69aff24ba66a2b842fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 16/43] fix: accept f32::MAX in its shortest decimal form in
 JSON

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 7d32935..db5cc25 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -213,10 +213,13 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        // The shortest decimal form of `f32::MAX` is slightly above it as a double, so check the
+        // range after rounding.
+        let value = v as f32;
+        if value.is_infinite() && v.is_finite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(value)
         }
     }
 
-- 
2.43.0


From c646d7dd33e2c65bf843d1734ee4a9f9c105ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 17/43] fix: treat JSON null as unset for repeated Value and
 NullValue fields

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 550e589..31d028b 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -170,6 +170,8 @@ where
         E: Error,
     {
         match self.0.kind() {
+            // `null` means unset for a repeated field, whatever the kind of its elements
+            _ if self.0.is_list() => Ok(None),
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
                     &message_desc,
-- 
2.43.0


From c65b043f635daedff4cbe581db8f430c7ca60878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 18/43] fix: keep negative zero in JSON float wrappers

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 31d028b..e33cc52 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -31,10 +31,10 @@ where
             .and_then(|duration| make_message(desc, duration)),
         "google.protobuf.FloatValue" => deserializer
             .deserialize_any(kind::FloatVisitor)
-            .and_then(|v| make_message(desc, v)),
+            .and_then(|v| make_float_wrapper(desc, Value::F32(v))),
         "google.protobuf.DoubleValue" => deserializer
             .deserialize_any(kind::DoubleVisitor)
-            .and_then(|v| make_message(desc, v)),
+            .and_then(|v| make_float_wrapper(desc, Value::F64(v))),
         "google.protobuf.Int32Value" => deserializer
             .deserialize_any(kind::Int32Visitor)
             .and_then(|v| make_message(desc, v)),
@@ -207,3 +207,15 @@ fn make_message<E: Error, T: Message>(
         .map_err(|err| Error::custom(format!("error decoding: {err}")))?;
     Ok(dynamic)
 }
+
+/// Like `make_message`, but keeps a negative zero, which prost's wrapper types do not encode.
+fn make_float_wrapper<E: Error>(
+    desc: &MessageDescriptor,
+    value: Value,
+) -> Result<DynamicMessage, E> {
+    let mut dynamic = DynamicMessage::new(desc.clone());
+    dynamic
+        .try_set_field_by_number(1, value)
+        .map_err(Error::custom)?;
+    Ok(dynamic)
+}
-- 
2.43.0


From f670411f69032276d886bdcca42e52d3034fdbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 19/43] fix: accept a list of text-format messages without a
 preceding colon

---
 prost-reflect/src/dynamic/text_format/parse/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..1f6306a 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -74,6 +74,8 @@ impl<'a> Parser<'a> {
                 self.bump();
             }
             Some((Token::LeftBrace | Token::LeftAngleBracket, _)) => (),
+            // The ':' may also be omitted before a list of messages
+            Some((Token::LeftBracket, _)) if is_message_field(&message.desc, &name) => (),
             _ => self.unexpected_token("':' or a message value")?,
         };
 
@@ -637,6 +639,17 @@ fn find_field(desc: &MessageDescriptor, name: &str) -> Option<FieldDescriptor> {
     None
 }
 
+fn is_message_field(desc: &MessageDescriptor, name: &FieldName) -> bool {
+    let kind = match name {
+        FieldName::Ident(field_name) => find_field(desc, field_name).map(|field| field.kind()),
+        FieldName::Extension(extension_name) => desc
+            .get_extension_by_full_name(extension_name)
+            .map(|extension| extension.kind()),
+        FieldName::Any(..) => None,
+    };
+    matches!(kind, Some(Kind::Message(_)))
+}
+
 fn fmt_expected<'a>(ts: impl Iterator<Item = Token<'a>>) -> String {
     use std::fmt::Write;
 
-- 
2.43.0


From 6a6f74f3c5501d08c9e9521ae4403c2a110d3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 20/43] fix: print an Any whose type URL has no text-format
 name with its plain fields

---
 prost-reflect/src/dynamic/text_format/format.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..5c34eb9 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // Only expand the message if the name can be read back by the parser
+    let domain = any.type_url.strip_suffix(message_name)?.strip_suffix('/')?;
+    if !is_full_ident(domain) || !is_full_ident(message_name) {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +318,13 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_full_ident(s: &str) -> bool {
+    s.split('.').all(|part| {
+        part.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+            && part.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
+    })
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From 408d011dac03e0f2221eb8c1dbef80c81cf6035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 21/43] fix: reject text-format fields given twice when the
 first value is a default or an expanded Any

---
 .../src/dynamic/text_format/parse/mod.rs      | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 1f6306a..32d97f4 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -1,7 +1,7 @@
 mod error;
 mod lex;
 
-use std::{borrow::Cow, convert::TryFrom, iter::once};
+use std::{borrow::Cow, collections::BTreeSet, convert::TryFrom, iter::once};
 
 use logos::{Lexer, Logos, Span};
 use prost::Message;
@@ -38,8 +38,9 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_message(&mut self, message: &mut DynamicMessage) -> Result<(), ParseErrorKind> {
+        let mut seen = BTreeSet::new();
         while self.peek()?.is_some() {
-            self.parse_field(message)?;
+            self.parse_field(message, &mut seen)?;
         }
         Ok(())
     }
@@ -54,9 +55,12 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        let mut seen = BTreeSet::new();
         loop {
             match self.peek()? {
-                Some((Token::Ident(_) | Token::LeftBracket, _)) => self.parse_field(message)?,
+                Some((Token::Ident(_) | Token::LeftBracket, _)) => {
+                    self.parse_field(message, &mut seen)?
+                }
                 Some((tok, _)) if tok == terminator => {
                     let end = self.bump();
                     return Ok(join_span(start, end));
@@ -66,7 +70,13 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn parse_field(&mut self, message: &mut DynamicMessage) -> Result<(), ParseErrorKind> {
+    /// Parses one field of a message. The numbers of the singular fields which were already
+    /// given are kept in `seen`, as a field set to its default value may not be present.
+    fn parse_field(
+        &mut self,
+        message: &mut DynamicMessage,
+        seen: &mut BTreeSet<u32>,
+    ) -> Result<(), ParseErrorKind> {
         let (name, span) = self.parse_field_name()?;
 
         match self.peek()? {
@@ -89,7 +99,7 @@ impl<'a> Parser<'a> {
                     }
                 })?;
 
-                self.parse_field_value(message, &field)?;
+                self.parse_field_value(message, &field, seen)?;
             }
             FieldName::Extension(extension_name) => {
                 let extension = message
@@ -101,7 +111,7 @@ impl<'a> Parser<'a> {
                         span,
                     })?;
 
-                self.parse_field_value(message, &extension)?;
+                self.parse_field_value(message, &extension, seen)?;
             }
             FieldName::Any(domain, message_name) => {
                 let value_message = match message
@@ -116,6 +126,17 @@ impl<'a> Parser<'a> {
                 let mut value = DynamicMessage::new(value_message);
                 self.parse_message_value(&mut value)?;
 
+                if message.desc.full_name() == "google.protobuf.Any" {
+                    for field in message.desc.fields() {
+                        if message.has_field(&field) || !seen.insert(field.number()) {
+                            return Err(ParseErrorKind::FieldAlreadySet {
+                                field_name: field.name().to_owned(),
+                                span,
+                            });
+                        }
+                    }
+                }
+
                 let type_url = format!("{domain}/{message_name}");
                 let value = value.encode_to_vec();
 
@@ -173,6 +194,7 @@ impl<'a> Parser<'a> {
         &mut self,
         message: &mut DynamicMessage,
         field: &impl FieldDescriptorLike,
+        seen: &mut BTreeSet<u32>,
     ) -> Result<(), ParseErrorKind> {
         if field.is_list() {
             let (value, _) = self.parse_repeated_value(&field.kind())?;
@@ -219,7 +241,7 @@ impl<'a> Parser<'a> {
             let kind = field.kind();
             let (value, span) = self.parse_value(&kind)?;
 
-            if message.fields.has(field) {
+            if message.fields.has(field) || !seen.insert(field.number()) {
                 return Err(ParseErrorKind::FieldAlreadySet {
                     field_name: field.text_name().to_owned(),
                     span,
-- 
2.43.0


From b83021796f2d6666a4d24c490963df9dc0bab160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 22/43] fix: reject text-format integers like 08 instead of
 reading them as decimal

---
 prost-reflect/src/dynamic/text_format/parse/lex.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index 91d2b45..0f41b2d 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -113,10 +113,15 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
         return Err(());
     }
 
-    Ok(Int {
-        value: &lex.source()[span],
-        radix,
-    })
+    let value = &lex.source()[span];
+    // A leading zero is only allowed for octal literals
+    if !value.chars().all(|ch| ch.is_digit(radix))
+        || (radix == 10 && value.len() > 1 && value.starts_with('0'))
+    {
+        return Err(());
+    }
+
+    Ok(Int { value, radix })
 }
 
 fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> f64 {
-- 
2.43.0


From 8f8bdd4d197c2cb1d722e9e24bf86aeee1a9a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 23/43] fix: names that are not imported no longer shadow
 visible ones during resolution

---
 prost-reflect/src/descriptor/build/mod.rs     | 34 ++++++++++++++-----
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 prost-reflect/src/descriptor/mod.rs           | 10 ++++++
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..f19fdab 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -77,13 +77,7 @@ impl DescriptorPoolOffsets {
         pool.extensions.truncate(self.extension as usize);
         pool.services.truncate(self.service as usize);
         pool.names.retain(|name, definition| match definition.kind {
-            DefinitionKind::Package => pool.files.iter().any(|f| {
-                f.prost.package().starts_with(name.as_ref())
-                    && matches!(
-                        f.prost.package().as_bytes().get(name.len()),
-                        None | Some(&b'.')
-                    )
-            }),
+            DefinitionKind::Package => pool.files.iter().any(|f| f.is_in_package(name)),
             DefinitionKind::Message(message)
             | DefinitionKind::Field(message)
             | DefinitionKind::Oneof(message) => message < self.message,
@@ -316,6 +310,7 @@ fn to_json_name(name: &str) -> String {
 }
 
 fn resolve_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -325,11 +320,12 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(files, dependencies, names, scope, name, filter),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -364,7 +360,12 @@ fn resolve_relative_name<'a, 'b>(
 
                     let res =
                         ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
-                    if matches!(res, ResolveNameResult::NotFound) {
+                    if !is_visible(files, dependencies, &candidate, def) {
+                        // A definition which is not imported can't hide one in an outer scope.
+                        if matches!(err, ResolveNameResult::NotFound) {
+                            err = res;
+                        }
+                    } else if matches!(res, ResolveNameResult::NotFound) {
                         return ResolveNameResult::Shadowed {
                             name: Cow::Borrowed(relative_name),
                             shadowed_name: candidate_full,
@@ -381,6 +382,21 @@ fn resolve_relative_name<'a, 'b>(
     err.into_owned()
 }
 
+fn is_visible(
+    files: &[FileDescriptorInner],
+    dependencies: &HashSet<FileIndex>,
+    name: &str,
+    def: &Definition,
+) -> bool {
+    match def.kind {
+        // A package may be declared by any number of files, `def.file` is just the first of them.
+        DefinitionKind::Package => dependencies
+            .iter()
+            .any(|&file| files[file as usize].is_in_package(name)),
+        _ => dependencies.contains(&def.file),
+    }
+}
+
 fn resolve_relative_candidate_parents(scope: &str) -> impl Iterator<Item = &str> {
     iter::once(scope)
         .chain(scope.rmatch_indices('.').map(move |(i, _)| &scope[..i]))
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..1084a49 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -521,6 +521,7 @@ impl OptionsVisitor<'_> {
         extendee: &MessageDescriptor,
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
+            &self.pool.inner.files,
             &self.pool.inner.files[file as usize].transitive_dependencies,
             &self.pool.inner.names,
             scope,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index e8be626..d78f868 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -719,6 +719,7 @@ impl ResolveVisitor<'_> {
         filter: ResolveNameFilter,
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
+            &self.pool.files,
             &self.pool.files[file as usize].transitive_dependencies,
             &self.pool.names,
             scope,
diff --git a/prost-reflect/src/descriptor/mod.rs b/prost-reflect/src/descriptor/mod.rs
index d14c9b8..e4bbae7 100644
--- a/prost-reflect/src/descriptor/mod.rs
+++ b/prost-reflect/src/descriptor/mod.rs
@@ -390,6 +390,16 @@ impl fmt::Debug for KindIndex {
     }
 }
 
+impl FileDescriptorInner {
+    /// Returns whether this file's package is `package`, or is nested within it.
+    fn is_in_package(&self, package: &str) -> bool {
+        self.raw
+            .package()
+            .strip_prefix(package)
+            .is_some_and(|rest| rest.is_empty() || rest.starts_with('.'))
+    }
+}
+
 impl DefinitionKind {
     fn is_parent(&self) -> bool {
         match self {
-- 
2.43.0


From 18429fe53f9426794201244093b8ac10b1788546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 24/43] fix: failing to add files to a shared pool keeps it
 equal to its clones

---
 prost-reflect/src/descriptor/build/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index f19fdab..1727803 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -108,10 +108,16 @@ impl DescriptorPool {
             .filter(|f| !self.inner.file_names.contains_key(f.name()))
             .collect();
 
+        // If this pool is shared the files are added to a copy of it.
+        let shared = (Arc::strong_count(&self.inner) > 1).then(|| self.inner.clone());
+
         let result = self.build_files_deduped(offsets, &deduped_files);
         if result.is_err() {
             debug_assert_eq!(Arc::strong_count(&self.inner), 1);
-            offsets.rollback(Arc::get_mut(&mut self.inner).unwrap());
+            match shared {
+                Some(original) => self.inner = original,
+                None => offsets.rollback(Arc::get_mut(&mut self.inner).unwrap()),
+            }
         }
 
         result
-- 
2.43.0


From 51a2a041cee4a73136e18a8bec64d5ee8c460a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 25/43] fix: reject definitions without a name

---
 prost-reflect/src/descriptor/build/names.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 77fa1e1..f91e666 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -338,6 +338,13 @@ impl NameVisitor<'_> {
     ) {
         let path = join_path(path1, path2);
 
+        if name.is_empty() || name.ends_with('.') {
+            self.errors.push(DescriptorErrorKind::MissingRequiredField {
+                label: Label::new(&self.pool.files, "found here", file, path),
+            });
+            return;
+        }
+
         match self.pool.names.entry(name.into()) {
             hash_map::Entry::Vacant(entry) => {
                 entry.insert(Definition { file, kind, path });
-- 
2.43.0


From fb45fec9f2a41e2c8e5d175ac300fb5448d5adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 26/43] fix: reject fields whose type name does not match their
 type

---
 prost-reflect/src/descriptor/build/resolve.rs | 67 +++++++++++++++----
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index d78f868..19d66a1 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -116,7 +116,7 @@ impl Visitor for ResolveVisitor<'_> {
         };
 
         let kind =
-            self.resolve_field_type(field.r#type(), field.type_name(), full_name, file, path);
+            self.resolve_field_type(field_type(field), field.type_name(), full_name, file, path);
 
         let json_name: Box<str> = self.resolve_field_json_name(field, file, path).into();
 
@@ -379,7 +379,7 @@ impl Visitor for ResolveVisitor<'_> {
         };
 
         let kind = self.resolve_field_type(
-            extension.r#type(),
+            field_type(extension),
             extension.type_name(),
             full_name,
             file,
@@ -564,14 +564,14 @@ impl ResolveVisitor<'_> {
 
     fn resolve_field_type(
         &mut self,
-        ty: field_descriptor_proto::Type,
+        ty: Option<field_descriptor_proto::Type>,
         ty_name: &str,
         scope: &str,
         file: FileIndex,
         path: &[i32],
     ) -> Option<KindIndex> {
         if ty_name.is_empty() {
-            match ty {
+            match ty.unwrap_or_default() {
                 field_descriptor_proto::Type::Double => Some(KindIndex::Double),
                 field_descriptor_proto::Type::Float => Some(KindIndex::Float),
                 field_descriptor_proto::Type::Int64 => Some(KindIndex::Int64),
@@ -598,17 +598,53 @@ impl ResolveVisitor<'_> {
                 }
             }
         } else {
-            let def = self.resolve_name(
-                scope,
-                ty_name,
-                file,
-                path,
-                tag::field::TYPE_NAME,
-                ResolveNameFilter::FieldType,
-            )?;
+            let def = self
+                .resolve_name(
+                    scope,
+                    ty_name,
+                    file,
+                    path,
+                    tag::field::TYPE_NAME,
+                    ResolveNameFilter::FieldType,
+                )?
+                .clone();
+
+            let expected = match (def.kind, ty) {
+                (_, None)
+                | (
+                    DefinitionKind::Message(_),
+                    Some(
+                        field_descriptor_proto::Type::Message | field_descriptor_proto::Type::Group,
+                    ),
+                )
+                | (DefinitionKind::Enum(_), Some(field_descriptor_proto::Type::Enum)) => None,
+                (
+                    _,
+                    Some(
+                        field_descriptor_proto::Type::Message | field_descriptor_proto::Type::Group,
+                    ),
+                ) => Some("a message type"),
+                (_, Some(field_descriptor_proto::Type::Enum)) => Some("an enum type"),
+                _ => Some("a scalar type"),
+            };
+            if let Some(expected) = expected {
+                self.errors.push(DescriptorErrorKind::InvalidType {
+                    name: ty_name.trim_start_matches('.').to_owned(),
+                    expected: expected.to_owned(),
+                    found: Label::new(
+                        &self.pool.files,
+                        "found here",
+                        file,
+                        join_path(path, &[tag::field::TYPE_NAME]),
+                    ),
+                    defined: Label::new(&self.pool.files, "defined here", def.file, def.path),
+                });
+                return None;
+            }
+
             match def.kind {
                 DefinitionKind::Message(message) => {
-                    if ty == field_descriptor_proto::Type::Group {
+                    if ty == Some(field_descriptor_proto::Type::Group) {
                         Some(KindIndex::Group(message))
                     } else {
                         Some(KindIndex::Message(message))
@@ -763,6 +799,11 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// Gets the explicit type of a field, if it has one.
+fn field_type(field: &FieldDescriptorProto) -> Option<field_descriptor_proto::Type> {
+    field.r#type.and_then(|ty| ty.try_into().ok())
+}
+
 /// Gets the explicit value of the `packed` option for a field, if it has one.
 fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
     let options = &field.options.as_ref()?.value;
-- 
2.43.0


From dcb06648a682c7dd38f21e1c2f5f82f8bb7c9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 27/43] fix: reserved enum number errors point at the number of
 the value

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 19d66a1..b1fb28c 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -541,7 +541,7 @@ impl ResolveVisitor<'_> {
                             &self.pool.files,
                             "defined here",
                             file,
-                            join_path(path, &[tag::field::NUMBER]),
+                            join_path(path, &[tag::enum_value::NUMBER]),
                         ),
                     });
             }
-- 
2.43.0


From b7a6bf7aca14a85d8c5fffcf348f5b87e765a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 28/43] fix: name the clashing JSON name when it was not
 written out

---
 prost-reflect/src/descriptor/build/resolve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index b1fb28c..c599e11 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -196,10 +196,10 @@ impl Visitor for ResolveVisitor<'_> {
                 ),
             });
         }
-        if let Some(existing) = message.field_json_names.insert(json_name, index) {
+        if let Some(existing) = message.field_json_names.insert(json_name.clone(), index) {
             self.errors
                 .push(DescriptorErrorKind::DuplicateFieldJsonName {
-                    name: field.json_name().to_owned(),
+                    name: json_name.into(),
                     first: Label::new(
                         &self.pool.files,
                         "first defined here",
-- 
2.43.0


From 70abb79f52e5f4b580b93daa031ebd0f6e64e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 29/43] fix: only treat messages with key and value fields as
 map entries

---
 prost-reflect/src/descriptor/api.rs | 14 ++++++++++++++
 prost-reflect/src/descriptor/mod.rs | 23 +++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index bb82718..48e5731 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -899,6 +899,20 @@ impl MessageDescriptor {
             .as_ref()
             .map(|o| o.value.map_entry())
             .unwrap_or(false)
+            && self.has_map_entry_fields()
+    }
+
+    /// Whether this message has the key and value fields of a map entry. The `map_entry` option
+    /// may also be set explicitly on a message which doesn't, which is then not usable as a map.
+    fn has_map_entry_fields(&self) -> bool {
+        let message = self.inner();
+        let field = |number: u32| {
+            let &index = message.field_numbers.get(&number)?;
+            let field = &message.fields[index as usize];
+            (field.cardinality != Cardinality::Repeated).then_some(field.kind)
+        };
+        field(MAP_ENTRY_KEY_NUMBER).is_some_and(|kind| kind.is_map_key())
+            && field(MAP_ENTRY_VALUE_NUMBER).is_some()
     }
 
     /// If this is a [map entry](MessageDescriptor::is_map_entry), returns a [`FieldDescriptor`] for the key.
diff --git a/prost-reflect/src/descriptor/mod.rs b/prost-reflect/src/descriptor/mod.rs
index e4bbae7..a160d41 100644
--- a/prost-reflect/src/descriptor/mod.rs
+++ b/prost-reflect/src/descriptor/mod.rs
@@ -364,6 +364,29 @@ impl KindIndex {
     fn is_message(&self) -> bool {
         matches!(self, KindIndex::Message(_) | KindIndex::Group(_))
     }
+
+    fn is_map_key(&self) -> bool {
+        match self {
+            KindIndex::Int32
+            | KindIndex::Int64
+            | KindIndex::Uint32
+            | KindIndex::Uint64
+            | KindIndex::Sint32
+            | KindIndex::Sint64
+            | KindIndex::Fixed32
+            | KindIndex::Fixed64
+            | KindIndex::Sfixed32
+            | KindIndex::Sfixed64
+            | KindIndex::Bool
+            | KindIndex::String => true,
+            KindIndex::Double
+            | KindIndex::Float
+            | KindIndex::Bytes
+            | KindIndex::Message(_)
+            | KindIndex::Enum(_)
+            | KindIndex::Group(_) => false,
+        }
+    }
 }
 
 impl fmt::Debug for KindIndex {
-- 
2.43.0


From 1246923aafb6f526348a02d5458091408531d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 30/43] fix: reject names with an empty component

---
 prost-reflect/src/descriptor/build/names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index f91e666..b2b4c4d 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -338,7 +338,7 @@ impl NameVisitor<'_> {
     ) {
         let path = join_path(path1, path2);
 
-        if name.is_empty() || name.ends_with('.') {
+        if name.split('.').any(str::is_empty) {
             self.errors.push(DescriptorErrorKind::MissingRequiredField {
                 label: Label::new(&self.pool.files, "found here", file, path),
             });
-- 
2.43.0


From 3f2031c3e899ffa3c112c221df6bce3b424a60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 31/43] fix: reject extensions of a message which share a field
 number

---
 prost-reflect/src/descriptor/build/resolve.rs | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index c599e11..b64dc30 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -365,6 +365,8 @@ impl Visitor for ResolveVisitor<'_> {
             tag::field::EXTENDEE,
         );
         if let Some(extendee) = extendee {
+            self.check_extension_number(extendee, extension, file, path);
+
             self.pool.messages[extendee as usize].extensions.push(index);
 
             self.check_field_number(extendee, extension, file, path);
@@ -515,6 +517,37 @@ impl ResolveVisitor<'_> {
         }
     }
 
+    fn check_extension_number(
+        &mut self,
+        extendee: MessageIndex,
+        extension: &FieldDescriptorProto,
+        file: FileIndex,
+        path: &[i32],
+    ) {
+        let existing = self.pool.messages[extendee as usize]
+            .extensions
+            .iter()
+            .map(|&index| &self.pool.extensions[index as usize])
+            .find(|existing| existing.number == extension.number() as u32);
+        if let Some(existing) = existing {
+            self.errors.push(DescriptorErrorKind::DuplicateFieldNumber {
+                number: extension.number() as u32,
+                first: Label::new(
+                    &self.pool.files,
+                    "first defined here",
+                    existing.id.file,
+                    join_path(&existing.id.path, &[tag::field::NUMBER]),
+                ),
+                second: Label::new(
+                    &self.pool.files,
+                    "defined again here",
+                    file,
+                    join_path(path, &[tag::field::NUMBER]),
+                ),
+            });
+        }
+    }
+
     fn check_enum_number(
         &mut self,
         enum_: EnumIndex,
-- 
2.43.0


From d09e4b7858709b2d467eb71b4820ef022a7c1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 32/43] fix: check the number of every message field against
 the extension ranges

---
 prost-reflect/src/descriptor/build/resolve.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index b64dc30..17dbe2d 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -107,7 +107,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let syntax = self.pool.files[file as usize].syntax;
 
-        self.check_field_number(message, field, file, path);
+        self.check_field_number(message, field, false, file, path);
 
         let cardinality = match field.label() {
             field_descriptor_proto::Label::Optional => Cardinality::Optional,
@@ -369,7 +369,7 @@ impl Visitor for ResolveVisitor<'_> {
 
             self.pool.messages[extendee as usize].extensions.push(index);
 
-            self.check_field_number(extendee, extension, file, path);
+            self.check_field_number(extendee, extension, true, file, path);
         }
 
         let syntax = self.pool.files[file as usize].syntax;
@@ -431,6 +431,7 @@ impl ResolveVisitor<'_> {
         &mut self,
         message: MessageIndex,
         field: &FieldDescriptorProto,
+        is_extension: bool,
         file: FileIndex,
         path: &[i32],
     ) {
@@ -480,9 +481,9 @@ impl ResolveVisitor<'_> {
             .iter()
             .enumerate()
             .find(|(_, range)| range.start() <= field.number() && field.number() < range.end());
-        match (&field.extendee, extension_range) {
-            (None, None) | (Some(_), Some(_)) => (),
-            (None, Some((i, range))) => {
+        match (is_extension, extension_range) {
+            (false, None) | (true, Some(_)) => (),
+            (false, Some((i, range))) => {
                 self.errors
                     .push(DescriptorErrorKind::FieldNumberInExtensionRange {
                         number: field.number(),
@@ -501,7 +502,7 @@ impl ResolveVisitor<'_> {
                         ),
                     });
             }
-            (Some(_), None) => {
+            (true, None) => {
                 self.errors
                     .push(DescriptorErrorKind::ExtensionNumberOutOfRange {
                         number: field.number(),
-- 
2.43.0


From 5548c407d7dcae26171c47f1e15f52151bf27689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 33/43] fix: report options which do not fit the standard
 options messages as an error

---
 prost-reflect/src/descriptor/build/options.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 1084a49..563dcd9 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -297,7 +297,7 @@ impl Visitor for OptionsVisitor<'_> {
 }
 
 impl OptionsVisitor<'_> {
-    fn resolve_options<T>(
+    fn resolve_options<T: Message + Default>(
         &mut self,
         desc_name: &str,
         options: &Options<T>,
@@ -335,7 +335,13 @@ impl OptionsVisitor<'_> {
 
         message.clear_field_by_number(tag::UNINTERPRETED_OPTION as u32);
 
-        message.encode_to_vec()
+        let encoded = message.encode_to_vec();
+        // The pool may define its own options messages, which need not be compatible.
+        if let Err(err) = Options::<T>::decode(encoded.as_slice()) {
+            self.errors
+                .push(DescriptorErrorKind::DecodeFileDescriptorSet { err });
+        }
+        encoded
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From 078c3f72623b4a538213fcfe214bf4baa73e4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 34/43] fix: ignore negative source locations in errors

---
 prost-reflect/src/descriptor/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..ef89465 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -793,7 +793,8 @@ impl Label {
                     Some([start_line, start_col, end_line, end_col])
                 }
                 _ => None,
-            });
+            })
+            .filter(|span| span.iter().all(|&n| n >= 0));
 
         Label {
             file: file.name().to_owned(),
-- 
2.43.0


From 3c0c266b7d8bb8bfaab74e21cdfdfee2534c0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 35/43] fix: limit the depth of messages in the text format
 parser

---
 prost-reflect/src/dynamic/mod.rs                     |  4 ++++
 prost-reflect/src/dynamic/text_format/parse/error.rs |  5 +++++
 prost-reflect/src/dynamic/text_format/parse/mod.rs   | 10 +++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 0543c29..b375c7c 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -32,6 +32,10 @@ use crate::{
     descriptor::Kind, ExtensionDescriptor, FieldDescriptor, MessageDescriptor, ReflectMessage,
 };
 
+/// The maximum number of levels of nested messages when reading or writing a message in a
+/// format other than the binary format, the same as the limit used by [`prost`] when decoding.
+pub(crate) const RECURSION_LIMIT: u32 = 100;
+
 /// [`DynamicMessage`] provides encoding, decoding and reflection of a protobuf message.
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
diff --git a/prost-reflect/src/dynamic/text_format/parse/error.rs b/prost-reflect/src/dynamic/text_format/parse/error.rs
index dfc909c..d3cc9da 100644
--- a/prost-reflect/src/dynamic/text_format/parse/error.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/error.rs
@@ -112,6 +112,10 @@ pub(crate) enum ParseErrorKind {
         span: Span,
     },
     InvalidMapKey,
+    RecursionLimitReached {
+        #[cfg_attr(feature = "miette", label("defined here"))]
+        span: Span,
+    },
 }
 
 impl Display for ParseErrorKind {
@@ -179,6 +183,7 @@ impl Display for ParseErrorKind {
                 "the field type must be 'google.protobuf.Any' to use Any expansion syntax"
             ),
             ParseErrorKind::InvalidMapKey => write!(f, "invalid value type for map key"),
+            ParseErrorKind::RecursionLimitReached { .. } => write!(f, "recursion limit reached"),
         }
     }
 }
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 32d97f4..1bac4a0 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -14,13 +14,14 @@ use self::{
 };
 use crate::{
     descriptor::{MAP_ENTRY_KEY_NUMBER, MAP_ENTRY_VALUE_NUMBER},
-    dynamic::fields::FieldDescriptorLike,
+    dynamic::{fields::FieldDescriptorLike, RECURSION_LIMIT},
     DynamicMessage, EnumDescriptor, FieldDescriptor, Kind, MapKey, MessageDescriptor, Value,
 };
 
 pub(in crate::dynamic::text_format) struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ParseErrorKind>>,
+    depth: u32,
 }
 
 enum FieldName {
@@ -34,6 +35,7 @@ impl<'a> Parser<'a> {
         Parser {
             lexer: Token::lexer(input),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -55,6 +57,11 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        if self.depth == RECURSION_LIMIT {
+            return Err(ParseErrorKind::RecursionLimitReached { span: start });
+        }
+        self.depth += 1;
+
         let mut seen = BTreeSet::new();
         loop {
             match self.peek()? {
@@ -63,6 +70,7 @@ impl<'a> Parser<'a> {
                 }
                 Some((tok, _)) if tok == terminator => {
                     let end = self.bump();
+                    self.depth -= 1;
                     return Ok(join_span(start, end));
                 }
                 _ => self.unexpected_token(format!("'{terminator}' or a field name"))?,
-- 
2.43.0


From 3d2643212c7e7bcf7cacabac66ec166c04ebfa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 36/43] fix: limit the depth of expanded messages in the text
 format

---
 prost-reflect/src/dynamic/fields.rs           | 11 +++++++++
 prost-reflect/src/dynamic/mod.rs              | 15 ++++++++++++
 .../src/dynamic/text_format/format.rs         | 23 ++++++++++++++++---
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/dynamic/fields.rs b/prost-reflect/src/dynamic/fields.rs
index 0d8bead..73931c2 100644
--- a/prost-reflect/src/dynamic/fields.rs
+++ b/prost-reflect/src/dynamic/fields.rs
@@ -244,6 +244,17 @@ impl DynamicMessageFieldSet {
         })
     }
 
+    pub(super) fn depth(&self) -> u32 {
+        self.fields
+            .values()
+            .map(|value| match value {
+                ValueOrUnknown::Value(value) => value.depth(),
+                ValueOrUnknown::Taken | ValueOrUnknown::Unknown(_) => 0,
+            })
+            .max()
+            .unwrap_or(0)
+    }
+
     pub(crate) fn iter_fields_mut<'a>(
         &'a mut self,
         message: &'a MessageDescriptor,
diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index b375c7c..a6b8e93 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -129,6 +129,11 @@ pub enum SetFieldError {
 }
 
 impl DynamicMessage {
+    /// Returns the number of messages nested inside of each other in this message.
+    pub(crate) fn depth(&self) -> u32 {
+        self.fields.depth()
+    }
+
     /// Creates a new, empty instance of [`DynamicMessage`] for the message type specified by the [`MessageDescriptor`].
     pub fn new(desc: MessageDescriptor) -> Self {
         DynamicMessage {
@@ -617,6 +622,16 @@ impl ReflectMessage for DynamicMessage {
 }
 
 impl Value {
+    /// Returns the number of messages nested inside of each other in this value.
+    pub(crate) fn depth(&self) -> u32 {
+        match self {
+            Value::Message(message) => 1 + message.depth(),
+            Value::List(values) => values.iter().map(Value::depth).max().unwrap_or(0),
+            Value::Map(values) => 1 + values.values().map(Value::depth).max().unwrap_or(0),
+            _ => 0,
+        }
+    }
+
     /// Returns the default value for the given protobuf field.
     ///
     /// See [FieldDescriptor::default_value] for more details.
diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 5c34eb9..30563d2 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -8,6 +8,7 @@ use crate::{
         fmt_string, get_type_url_message_name,
         text_format::FormatOptions,
         unknown::{UnknownField, UnknownFieldSet, UnknownFieldValue},
+        RECURSION_LIMIT,
     },
     DynamicMessage, Kind, MapKey, Value,
 };
@@ -16,6 +17,7 @@ pub(in crate::dynamic) struct Writer<'a, W> {
     options: FormatOptions,
     f: &'a mut W,
     indent_level: u32,
+    depth: u32,
 }
 
 impl<'a, W> Writer<'a, W>
@@ -27,12 +29,16 @@ where
             options,
             f,
             indent_level: 0,
+            depth: 0,
         }
     }
 
     pub fn fmt_message(&mut self, message: &DynamicMessage) -> fmt::Result {
         if self.options.expand_any {
-            if let Some((type_url, body)) = as_any(message) {
+            if let Some((type_url, body)) = as_any(message)
+                // Only expand the message if the parser would not reach its limit
+                .filter(|(_, body)| self.depth + 1 + body.depth() <= RECURSION_LIMIT)
+            {
                 self.f.write_char('[')?;
                 self.f.write_str(&type_url)?;
                 self.f.write_str("]")?;
@@ -102,14 +108,18 @@ where
                 } else if self.options.pretty {
                     self.f.write_char('{')?;
                     self.indent_level += 2;
+                    self.depth += 1;
                     self.fmt_newline()?;
                     self.fmt_message(message)?;
                     self.indent_level -= 2;
+                    self.depth -= 1;
                     self.fmt_newline()?;
                     self.f.write_char('}')
                 } else {
                     self.f.write_char('{')?;
+                    self.depth += 1;
                     self.fmt_message(message)?;
+                    self.depth -= 1;
                     self.f.write_char('}')
                 }
             }
@@ -120,6 +130,7 @@ where
                 let value_kind = kind
                     .and_then(|k| k.as_message())
                     .map(|m| m.map_entry_value_field().kind());
+                self.depth += 1;
                 self.fmt_list(map.iter(), |this, (key, value)| {
                     if this.options.pretty {
                         this.f.write_str("{")?;
@@ -140,7 +151,9 @@ where
                         this.fmt_field_value(value, value_kind.as_ref())?;
                         this.f.write_char('}')
                     }
-                })
+                })?;
+                self.depth -= 1;
+                Ok(())
             }
         }
     }
@@ -203,7 +216,7 @@ where
                 write!(self.f, "0x{:016x}", u64::from_le_bytes(*bytes))
             }
             UnknownFieldValue::LengthDelimited(bytes) => {
-                if !bytes.is_empty() {
+                if !bytes.is_empty() && self.depth < RECURSION_LIMIT {
                     if let Ok(set) = UnknownFieldSet::decode(bytes.clone()) {
                         self.fmt_padding()?;
                         return self.fmt_unknown_field_set(&set);
@@ -227,14 +240,18 @@ where
         } else if self.options.pretty {
             self.f.write_char('{')?;
             self.indent_level += 2;
+            self.depth += 1;
             self.fmt_newline()?;
             self.fmt_delimited(set.iter(), Writer::fmt_unknown_field)?;
             self.indent_level -= 2;
+            self.depth -= 1;
             self.fmt_newline()?;
             self.f.write_char('}')
         } else {
             self.f.write_char('{')?;
+            self.depth += 1;
             self.fmt_delimited(set.iter(), Writer::fmt_unknown_field)?;
+            self.depth -= 1;
             self.f.write_char('}')
         }
     }
-- 
2.43.0


From a5ffe4f29d73ed9c662419dffdeb1d0e514ee94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 37/43] fix: limit the depth of expanded messages in the JSON
 format

---
 prost-reflect/src/dynamic/serde/mod.rs     |  4 ++++
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..18943a0 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -19,6 +19,9 @@ pub struct SerializeOptions {
     use_enum_numbers: bool,
     use_proto_field_name: bool,
     skip_default_fields: bool,
+    /// The number of messages which contain the `google.protobuf.Any` message currently being
+    /// serialized, in the messages which were already expanded.
+    any_depth: u32,
 }
 
 /// Options to control deserialization of messages.
@@ -204,6 +207,7 @@ impl SerializeOptions {
             use_enum_numbers: false,
             use_proto_field_name: false,
             skip_default_fields: true,
+            any_depth: 0,
         }
     }
 
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 95f1248..2fe41e4 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -9,7 +9,7 @@ use crate::{
             case::snake_case_to_camel_case, check_duration, check_timestamp, is_well_known_type,
             SerializeOptions,
         },
-        DynamicMessage,
+        DynamicMessage, RECURSION_LIMIT,
     },
     ReflectMessage,
 };
@@ -72,6 +72,16 @@ where
         .merge(raw.value.as_ref())
         .map_err(decode_to_ser_err)?;
 
+    // The depth of a message is limited when it is decoded, but not the depth of the messages
+    // obtained by decoding the messages inside of it.
+    if options.any_depth >= RECURSION_LIMIT {
+        return Err(Error::custom("recursion limit reached"));
+    }
+    let options = &SerializeOptions {
+        any_depth: options.any_depth + 1 + payload_message.depth(),
+        ..options.clone()
+    };
+
     if is_well_known_type(message_name) {
         let mut map = serializer.serialize_map(Some(2))?;
         map.serialize_entry("@type", &raw.type_url)?;
-- 
2.43.0


From cae50fe3ac38e997db70c34c5a48c2b84d5a5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 38/43] fix: report options which are nested too deeply as an
 error

---
 prost-reflect/src/descriptor/build/options.rs | 25 +++++++++++++------
 prost-reflect/src/descriptor/error.rs         | 15 +++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 563dcd9..67af649 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -20,7 +20,7 @@ use crate::{
         FileIndex, MessageIndex, MethodIndex, OneofIndex, ServiceIndex, MAP_ENTRY_KEY_NUMBER,
         MAP_ENTRY_VALUE_NUMBER,
     },
-    dynamic::{fmt_string, FieldDescriptorLike},
+    dynamic::{fmt_string, FieldDescriptorLike, RECURSION_LIMIT},
     Cardinality, DescriptorError, DescriptorPool, DynamicMessage, EnumDescriptor,
     ExtensionDescriptor, MapKey, MessageDescriptor, ReflectMessage, Value,
 };
@@ -322,14 +322,16 @@ impl OptionsVisitor<'_> {
         };
 
         for (i, option) in uninterpreted.iter().enumerate() {
-            if let Err(err) = self.set_option(
-                &mut message,
-                option,
-                scope,
-                file,
-                join_path(path, &[tag::UNINTERPRETED_OPTION, i as i32]),
-            ) {
+            let path = join_path(path, &[tag::UNINTERPRETED_OPTION, i as i32]);
+            if let Err(err) = self.set_option(&mut message, option, scope, file, path.clone()) {
                 self.errors.push(err);
+            } else if message.depth() > RECURSION_LIMIT {
+                // The options could not be decoded again
+                self.errors.push(DescriptorErrorKind::OptionTooDeep {
+                    name: fmt_option_name(&option.name),
+                    found: Label::new(&self.pool.inner.files, "found here", file, path),
+                });
+                break;
             }
         }
 
@@ -356,6 +358,13 @@ impl OptionsVisitor<'_> {
         let mut resolved_path = Vec::with_capacity(path.len() - 2 + option.name.len());
         resolved_path.extend_from_slice(&path[..path.len() - 2]);
 
+        if option.name.len() > RECURSION_LIMIT as usize + 1 {
+            return Err(DescriptorErrorKind::OptionTooDeep {
+                name: fmt_option_name(&option.name[..1]),
+                found: Label::new(&self.pool.inner.files, "found here", file, path),
+            });
+        }
+
         for (i, part) in option.name.iter().enumerate() {
             let is_last = i == option.name.len() - 1;
 
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index ef89465..dff3f68 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -125,6 +125,10 @@ pub(super) enum DescriptorErrorKind {
         name: String,
         found: Label,
     },
+    OptionTooDeep {
+        name: String,
+        found: Label,
+    },
     InvalidOptionType {
         name: String,
         ty: String,
@@ -331,6 +335,7 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::DuplicateEnumNumber { second, .. } => Some(second),
             DescriptorErrorKind::EnumNumberInReservedRange { found, .. } => Some(found),
             DescriptorErrorKind::OptionNotFound { found, .. } => Some(found),
+            DescriptorErrorKind::OptionTooDeep { found, .. } => Some(found),
             DescriptorErrorKind::InvalidOptionType { found, .. } => Some(found),
             DescriptorErrorKind::InvalidOptionExtendee { found, .. } => Some(found),
             #[cfg(feature = "text-format")]
@@ -415,6 +420,9 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::OptionNotFound { found, .. } => {
                 found.resolve_span(file, source);
             }
+            DescriptorErrorKind::OptionTooDeep { found, .. } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::InvalidOptionType { found, .. } => {
                 found.resolve_span(file, source);
             }
@@ -565,6 +573,9 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::OptionNotFound { name, .. } => {
                 write!(f, "option field '{name}' is not defined")
             }
+            DescriptorErrorKind::OptionTooDeep { name, .. } => {
+                write!(f, "the value of option '{name}' is nested too deeply")
+            }
             DescriptorErrorKind::InvalidOptionType {
                 name,
                 ty,
@@ -660,6 +671,7 @@ impl miette::Diagnostic for DescriptorErrorKind {
             )),
             DescriptorErrorKind::EnumNumberInReservedRange { .. } => None,
             DescriptorErrorKind::OptionNotFound { .. } => None,
+            DescriptorErrorKind::OptionTooDeep { .. } => None,
             DescriptorErrorKind::InvalidOptionType { .. } => None,
             DescriptorErrorKind::InvalidOptionExtendee { .. } => None,
             #[cfg(feature = "text-format")]
@@ -741,6 +753,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::OptionNotFound { found, .. } => {
                 spans.extend(found.to_span());
             }
+            DescriptorErrorKind::OptionTooDeep { found, .. } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::InvalidOptionType { found, .. } => {
                 spans.extend(found.to_span());
             }
-- 
2.43.0


From 10e4cb92f1023f2713eaa7c5a8de2b77df31a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 39/43] fix: reduce the stack space needed to parse nested
 messages in the text format

---
 .../src/dynamic/text_format/parse/mod.rs      | 100 +++++++++++-------
 1 file changed, 61 insertions(+), 39 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 1bac4a0..4525ba0 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -122,47 +122,60 @@ impl<'a> Parser<'a> {
                 self.parse_field_value(message, &extension, seen)?;
             }
             FieldName::Any(domain, message_name) => {
-                let value_message = match message
-                    .desc
-                    .parent_pool()
-                    .get_message_by_name(&message_name)
-                {
-                    Some(msg) => msg,
-                    None => return Err(ParseErrorKind::MessageNotFound { message_name, span }),
-                };
+                self.parse_any_value(message, domain, message_name, span, seen)?;
+            }
+        }
 
-                let mut value = DynamicMessage::new(value_message);
-                self.parse_message_value(&mut value)?;
+        if matches!(self.peek()?, Some((Token::Comma | Token::Semicolon, _))) {
+            self.bump();
+        }
 
-                if message.desc.full_name() == "google.protobuf.Any" {
-                    for field in message.desc.fields() {
-                        if message.has_field(&field) || !seen.insert(field.number()) {
-                            return Err(ParseErrorKind::FieldAlreadySet {
-                                field_name: field.name().to_owned(),
-                                span,
-                            });
-                        }
-                    }
-                }
+        Ok(())
+    }
+
+    fn parse_any_value(
+        &mut self,
+        message: &mut DynamicMessage,
+        domain: String,
+        message_name: String,
+        span: Span,
+        seen: &mut BTreeSet<u32>,
+    ) -> Result<(), ParseErrorKind> {
+        let value_message = match message
+            .desc
+            .parent_pool()
+            .get_message_by_name(&message_name)
+        {
+            Some(msg) => msg,
+            None => return Err(ParseErrorKind::MessageNotFound { message_name, span }),
+        };
 
-                let type_url = format!("{domain}/{message_name}");
-                let value = value.encode_to_vec();
-
-                if !(message.desc.full_name() == "google.protobuf.Any"
-                    && message
-                        .try_set_field_by_number(1, Value::String(type_url))
-                        .is_ok()
-                    && message
-                        .try_set_field_by_number(2, Value::Bytes(value.into()))
-                        .is_ok())
-                {
-                    return Err(ParseErrorKind::InvalidTypeForAny { span });
+        let mut value = DynamicMessage::new(value_message);
+        self.parse_message_value(&mut value)?;
+
+        if message.desc.full_name() == "google.protobuf.Any" {
+            for field in message.desc.fields() {
+                if message.has_field(&field) || !seen.insert(field.number()) {
+                    return Err(ParseErrorKind::FieldAlreadySet {
+                        field_name: field.name().to_owned(),
+                        span,
+                    });
                 }
             }
         }
 
-        if matches!(self.peek()?, Some((Token::Comma | Token::Semicolon, _))) {
-            self.bump();
+        let type_url = format!("{domain}/{message_name}");
+        let value = value.encode_to_vec();
+
+        if !(message.desc.full_name() == "google.protobuf.Any"
+            && message
+                .try_set_field_by_number(1, Value::String(type_url))
+                .is_ok()
+            && message
+                .try_set_field_by_number(2, Value::Bytes(value.into()))
+                .is_ok())
+        {
+            return Err(ParseErrorKind::InvalidTypeForAny { span });
         }
 
         Ok(())
@@ -303,6 +316,19 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_value(&mut self, kind: &Kind) -> Result<(Value, Span), ParseErrorKind> {
+        match kind {
+            Kind::Message(desc) => {
+                let mut message = DynamicMessage::new(desc.clone());
+                let span = self.parse_message_value(&mut message)?;
+                Ok((Value::Message(message), span))
+            }
+            _ => self.parse_scalar_value(kind),
+        }
+    }
+
+    // The functions which parse nested messages are kept separate from the rest of the parser, to
+    // limit the stack space used for each level of nesting.
+    fn parse_scalar_value(&mut self, kind: &Kind) -> Result<(Value, Span), ParseErrorKind> {
         match kind {
             Kind::Float => {
                 let (value, span) = self.parse_float()?;
@@ -343,11 +369,7 @@ impl<'a> Parser<'a> {
                 let (value, span) = self.parse_bytes()?;
                 Ok((Value::Bytes(value.into()), span))
             }
-            Kind::Message(desc) => {
-                let mut message = DynamicMessage::new(desc.clone());
-                let span = self.parse_message_value(&mut message)?;
-                Ok((Value::Message(message), span))
-            }
+            Kind::Message(_) => unreachable!("not a scalar"),
             Kind::Enum(desc) => {
                 let (value, span) = self.parse_enum(desc)?;
                 Ok((Value::EnumNumber(value), span))
-- 
2.43.0


From 02005df6aacda40c69bbe0c4710462126dcd18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 40/43] fix: generate a single derive for messages whose name
 ends with the name of another message

An attribute path given to prost-build also matches types where the name
ends with the path, so the message 'a.b.Foo' was given the attributes of
both 'a.b.Foo' and 'Foo' (or 'b.Foo') and the generated code did not
compile.
---
 prost-reflect-build/src/lib.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/prost-reflect-build/src/lib.rs b/prost-reflect-build/src/lib.rs
index 0ef95f1..3523298 100644
--- a/prost-reflect-build/src/lib.rs
+++ b/prost-reflect-build/src/lib.rs
@@ -163,15 +163,29 @@ impl Builder {
             ));
         };
 
-        for message in descriptor.all_messages() {
+        // An attribute for a message is also added to all types where the name ends with the name
+        // of the message. Add the derive only once to those, and make sure that the most specific
+        // name comes last, where it overrides the others.
+        let mut messages: Vec<_> = descriptor.all_messages().collect();
+        messages.sort_by_key(|message| message.full_name().len());
+
+        for message in &messages {
             let full_name = message.full_name();
-            config
-                .type_attribute(full_name, "#[derive(::prost_reflect::ReflectMessage)]")
-                .type_attribute(
-                    full_name,
-                    format!(r#"#[prost_reflect(message_name = "{full_name}")]"#),
-                )
-                .type_attribute(full_name, &pool_attribute);
+            let matches_other = full_name.match_indices('.').any(|(i, _)| {
+                descriptor
+                    .get_message_by_name(&full_name[i + 1..])
+                    .is_some()
+            });
+
+            if !matches_other {
+                config
+                    .type_attribute(full_name, "#[derive(::prost_reflect::ReflectMessage)]")
+                    .type_attribute(full_name, &pool_attribute);
+            }
+            config.type_attribute(
+                full_name,
+                format!(r#"#[prost_reflect(message_name = "{full_name}")]"#),
+            );
         }
 
         Ok(())
-- 
2.43.0


From ca4fe92a1f45b86c4fbf8b7de4c631f80e8a22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 41/43] fix: reject a sign in the hex escapes of bytes default
 values

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 17dbe2d..2781a5c 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -960,7 +960,7 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                         return Err("hex escape must contain two characters");
                     }
                     match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
-                        Some(Ok(b)) => dst.push(b),
+                        Some(Ok(b)) if src[p + 1] != b'+' => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From 10ce956d1308b56edde4dc8cfe98007cfecf0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 42/43] fix: accept inf and nan as values of float options

The values of the identifiers `inf` and `nan` are floating-point constants in
protobuf, but options with such values were rejected as ill-typed.
---
 prost-reflect/src/descriptor/build/options.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 67af649..83af1e9 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -617,7 +617,11 @@ pub(super) fn option_to_float(option: &UninterpretedOption) -> Result<f64, ()> {
     } else if let Some(int) = option.negative_int_value {
         Ok(int as f64)
     } else {
-        Err(())
+        match option.identifier_value.as_deref() {
+            Some("inf") => Ok(f64::INFINITY),
+            Some("nan") => Ok(f64::NAN),
+            _ => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From 3414c73a6d5be6d7adc8dbb754547851c8410d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:43 +0000
Subject: [PATCH 43/43] fix: set_extension rejects a value of the wrong type in
 release builds too

---
 prost-reflect/src/dynamic/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index a6b8e93..43b498f 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -501,6 +501,11 @@ impl DynamicMessage {
     ///
     /// See [`set_field`][Self::set_field] for more details.
     pub fn set_extension(&mut self, extension_desc: &ExtensionDescriptor, value: Value) {
+        assert!(
+            value.is_valid_for_extension(extension_desc),
+            "invalid value {value:?} for extension {extension_desc:?}",
+        );
+
         self.fields.set(extension_desc, value)
     }
 
-- 
2.43.0

