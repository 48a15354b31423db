From 161c5c1e31773ea5d3b59b7b7b70286a75ecbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 1/5] fix: ObjectPath::append must not accept an empty element

Appending an empty element gave a path with a trailing slash, which is not a
valid object path.
---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 9ae6577061ec3ba0ef6ffacd1253263eb8860300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 2/5] fix: the root path namespace contains every object path

path_namespace='/' and argNpath='/' matched only the path '/' itself.
---
 src/match_rule/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..0c11218 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,8 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        // A namespace which ends with the separator is the root path '/'
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From 01938c3b7d856a1db0127e7e6058cbc132cb8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 3/5] fix: do not encode a stale signature header field without
 a body

A header with a signature (for example from Message::split) and an empty body
was encoded to a message, which does not describe its body and does not decode.
---
 src/encode/message/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..8e8a5cf 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,8 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            // Without a body there must not be a signature, e.g. from a previous body
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From 84cac3d4edfa1eaa58eb44cc4bda4926978cab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 4/5] fix: refuse to convert an empty struct type to a
 signature string

The signature '()' is invalid and could not be parsed again.
---
 src/value/type_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..b1c68b1 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,10 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                // A struct without elements has no signature
+                if signature.is_empty() {
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0


From 195c2930663b435bb9f5fea3cfb56218293d215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 5/5] fix: refuse to encode messages longer than the maximum
 message length

Messages of more than 128 MiB were encoded although they are invalid and no
decoder accepts them; bodies beyond 4 GiB even wrapped the body length.
---
 src/encode/error.rs                  | 3 +++
 src/encode/message/message_struct.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..f2f03d5 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::message::MAXIMUM_MESSAGE_LENGTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -8,6 +9,8 @@ pub type EncodeResult<T> = Result<T, EncodeError>;
 pub enum EncodeError {
     #[error("Array length is too big: {MAXIMUM_ARRAY_LENGTH} < {0}")]
     ArrayTooBig(usize),
+    #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
+    MessageTooBig(usize),
     #[error("The body length is zero, but there is a body signature '{0:?}'")]
     BodyLengthZero(Vec<Type>),
     #[error("The body signature is missing, but there body length 0 != {0}")]
diff --git a/src/encode/message/message_struct.rs b/src/encode/message/message_struct.rs
index acc3be4..8128c67 100644
--- a/src/encode/message/message_struct.rs
+++ b/src/encode/message/message_struct.rs
@@ -1,5 +1,5 @@
 use crate::encode::{EncodeError, EncodeResult, Encoder};
-use crate::message::Message;
+use crate::message::{Message, MAXIMUM_MESSAGE_LENGTH};
 use crate::value::Type;
 use bytes::BytesMut;
 use cfg_if::cfg_if;
@@ -25,6 +25,9 @@ impl Encoder {
         }
 
         let body = encoder.buf;
+        if MAXIMUM_MESSAGE_LENGTH < body.len() {
+            return Err(EncodeError::MessageTooBig(body.len()));
+        }
         let body_length = body.len() as u32;
         if body_length == 0 {
             if body_signature.is_empty() {
@@ -43,6 +46,10 @@ impl Encoder {
 
         // Append the body.
         self.algin(8);
+        let message_length = self.buf.len() + body.len();
+        if MAXIMUM_MESSAGE_LENGTH < message_length {
+            return Err(EncodeError::MessageTooBig(message_length));
+        }
         self.buf.extend(body);
 
         Ok(())
-- 
2.43.0

