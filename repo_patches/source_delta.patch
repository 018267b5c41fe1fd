From 6593a087d39304415c3b4b0e991d0c442e99b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 01/62] fix: keep a member optional when it is null in some
 records and absent from others

---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..f88c45e 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,7 +115,6 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
             non_nullable => Optional(Box::new(non_nullable)),
         }
-- 
2.43.0


From f0b2611adb6da09f76a13df65925845b51137b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 02/62] fix: do not wrap an already nullable optional shape in
 a second Nullable

---
 json_typegen_shared/src/shape.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index f88c45e..1707385 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -122,9 +122,8 @@ impl Shape {
     pub(crate) fn into_nullable(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
-            Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Null | Any | Bottom | Nullable(_) => self,
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From 1a510f0afda32d466437d7bbe61c686ac3206fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 03/62] fix: merging an opaque shape with a nullable one keeps
 the nullability

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 1707385..112a79a 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -81,8 +81,8 @@ pub fn common_shape(a: Shape, b: Shape) -> Shape {
         (Struct { fields: f1 }, Struct { fields: f2 }) => Struct {
             fields: common_field_shapes(f1, f2),
         },
-        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         (a, Nullable(b)) | (Nullable(b), a) => common_shape(a, *b).into_nullable(),
+        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         _ => Any,
     }
 }
-- 
2.43.0


From 5bd4a96dfa098cd2f1f7881310648f5738a7000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 04/62] fix: do not reuse a type with an optional member where
 that member is null

An optional member does not admit null in TypeScript, and for linked-list like
samples the reuse made a Rust struct directly contain itself.
---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 112a79a..c0cfe87 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -137,7 +137,6 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From 91687a26f16f4934cd88000f54b3fe9d86355198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 05/62] fix: report malformed JSON inside a value with an
 opaque type hint

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..cd55f79 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -68,7 +68,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From 9414049eeef40942b27b56c33e61c596675c71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 06/62] fix: do not apply hints to values that unwrap discards

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index cd55f79..2b3a401 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -243,7 +243,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -273,7 +273,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From 8e4ad061a8d48399a8e450f88fa69324317687c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 07/62] fix: do not panic when a map hint hits an object over
 infer_map_threshold

---
 json_typegen_shared/src/inference/jsoninfer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 2b3a401..b95e097 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,6 +106,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
+            Shape::MapT { .. } => Ok(shape),
             _ => {
                 panic!("Got non-object from infer_object")
             }
-- 
2.43.0


From da630233d2e8c59f253193982a664c9dd979e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 08/62] fix: apply index hints only to the array element they
 point to

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index b95e097..599ed1a 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -176,7 +176,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
+                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From a276a6aee681de9edb0a895dcec1c28843ae9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 09/62] fix: reject samples with trailing content after the
 JSON value

---
 json_typegen_shared/src/inference/jsoninfer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 599ed1a..edcc88d 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -21,9 +21,10 @@ pub fn shape_from_json<R: Read>(
         pointer.split('/').collect()
     };
 
-    Inference::new(read)
-        .unwrap(&pointer_tokens, options, hints)?
-        .ok_or(JsonInputErr::NoMatchForUnwrap)
+    let mut inference = Inference::new(read);
+    let shape = inference.unwrap(&pointer_tokens, options, hints)?;
+    inference.expect_end()?;
+    shape.ok_or(JsonInputErr::NoMatchForUnwrap)
 }
 
 struct Inference<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> {
@@ -55,6 +56,14 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         }
     }
 
+    fn expect_end(&mut self) -> Result<(), JsonInputErr> {
+        match self.tokens.next() {
+            None => Ok(()),
+            Some(Ok(_)) => Err(JsonInputErr::InvalidJson),
+            Some(Err(err)) => Err(err),
+        }
+    }
+
     fn infer_shape(&mut self, options: &Options, hints: &Hints) -> Result<Shape, JsonInputErr> {
         for hint in hints.applicable.iter() {
             match hint.hint_type {
-- 
2.43.0


From a674d7bf34c4b460a90c7fbca1b25dcee70940b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 10/62] fix: infer floating for numbers that do not deserialize
 as a 64-bit integer

---
 json_typegen_shared/src/inference/jsoninfer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index edcc88d..54926c1 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -88,10 +88,11 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
-                    Ok(Shape::Floating)
-                } else {
+                // "-0" is an i64 in Rust, but a float to JSON parsers
+                if s != "-0" && s.parse::<i64>().is_ok() {
                     Ok(Shape::Integer)
+                } else {
+                    Ok(Shape::Floating)
                 }
             }
             JsonToken::String(_) => Ok(Shape::StringT),
-- 
2.43.0


From 8c15cca3de89c738deb378ad8f2aeb88443ac014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 11/62] fix: reject malformed numbers

---
 json_typegen_shared/src/inference/jsonlex.rs | 29 +++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7067727..a136bb7 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -180,13 +180,40 @@ impl<R: Read> JsonLexer<R> {
                 _ => break,
             }
         }
-        // TODO: Actually parse numbers
+        if !is_valid_number(&buffer) {
+            return Err(JsonInputErr::InvalidJson);
+        }
         Ok(JsonToken::Number(
             String::from_utf8(buffer).map_err(|_err| JsonInputErr::InvalidUtf8)?,
         ))
     }
 }
 
+/// Number grammar of RFC 8259: `-? (0 | [1-9][0-9]*) (\. [0-9]+)? ([eE] [+-]? [0-9]+)?`
+fn is_valid_number(bytes: &[u8]) -> bool {
+    fn skip_digits(bytes: &[u8]) -> Option<&[u8]> {
+        let len = bytes.iter().take_while(|b| b.is_ascii_digit()).count();
+        if len > 0 { Some(&bytes[len..]) } else { None }
+    }
+
+    let rest = bytes.strip_prefix(b"-").unwrap_or(bytes);
+    let rest = match rest {
+        [b'0', rest @ ..] => Some(rest),
+        _ => skip_digits(rest),
+    };
+    let rest = match rest {
+        Some([b'.', rest @ ..]) => skip_digits(rest),
+        rest => rest,
+    };
+    let rest = match rest {
+        Some([b'e' | b'E', b'+' | b'-', rest @ ..]) | Some([b'e' | b'E', rest @ ..]) => {
+            skip_digits(rest)
+        }
+        rest => rest,
+    };
+    rest.is_some_and(|rest| rest.is_empty())
+}
+
 impl<R: Read> Iterator for JsonLexer<R> {
     type Item = Result<JsonToken, JsonInputErr>;
 
-- 
2.43.0


From 52d0b727188b28b3154a9422ddf888e7e7ae3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 12/62] fix: reject surrogate escapes that do not form a
 high-low pair

---
 json_typegen_shared/src/inference/jsonlex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index a136bb7..d807e5b 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -128,6 +128,9 @@ impl<R: Read> JsonLexer<R> {
                             self.skip_byte(b'\\')?;
                             self.skip_byte(b'u')?;
                             let codepoint2 = self.parse_codepoint()? as u32;
+                            if codepoint > 0xDBFF || !(0xDC00..=0xDFFF).contains(&codepoint2) {
+                                return Err(JsonInputErr::InvalidJson);
+                            }
                             codepoint = ((codepoint << 10) + codepoint2) - surrogate_offset;
                         };
                         let mut buf = [0u8; 4];
-- 
2.43.0


From 684ad832dec5b1aa03f6b75a1cf5036ad28dc4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 13/62] fix: reject unescaped control characters in strings

---
 json_typegen_shared/src/inference/jsonlex.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index d807e5b..26cb0dd 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -144,6 +144,8 @@ impl<R: Read> JsonLexer<R> {
                     }
                     _ => return Err(JsonInputErr::InvalidEscape(escaped)),
                 };
+            } else if byte < 0x20 {
+                return Err(JsonInputErr::InvalidJson);
             } else {
                 self.buffer.push(byte)
             }
-- 
2.43.0


From 84b8a95443cf8604fda27f6ab4bb8f35289c5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 14/62] fix: decode ~0 and ~1 in JSON pointers

---
 json_typegen_shared/src/hints.rs               | 7 ++++++-
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/hints.rs b/json_typegen_shared/src/hints.rs
index 745cc9b..dcce884 100644
--- a/json_typegen_shared/src/hints.rs
+++ b/json_typegen_shared/src/hints.rs
@@ -46,6 +46,11 @@ fn is_index(s: &str) -> bool {
     s == "-" || s.bytes().all(|b| (b'0'..=b'9').contains(&b))
 }
 
+/// Does a reference token of a JSON pointer (with `-` as a wildcard) refer to the given key?
+pub fn token_matches_key(token: &str, key: &str) -> bool {
+    token == "-" || token.replace("~1", "/").replace("~0", "~") == key
+}
+
 impl<'a> Hints<'a> {
     pub fn new() -> Self {
         Hints {
@@ -72,7 +77,7 @@ impl<'a> Hints<'a> {
 
     /// ([/a/b, /a/c, /d/e], "a") -> [/b, /c]
     pub fn step_field(&self, name: &str) -> Hints {
-        self.step(|first| first == "-" || first == name)
+        self.step(|first| token_matches_key(first, name))
     }
 
     /// [/1/b, /a/c, /-/e] -> [/b, /c, /e]
diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 54926c1..bad192d 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -1,5 +1,5 @@
 use crate::Options;
-use crate::hints::{HintType, Hints};
+use crate::hints::{HintType, Hints, token_matches_key};
 use crate::inference::jsoninputerr::JsonInputErr;
 use crate::inference::jsonlex::{JsonLexer, JsonToken};
 use crate::shape::{Shape, common_shape};
@@ -249,7 +249,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     self.expect_token(JsonToken::Colon)?;
 
-                    if *first_token == "-" || *first_token == key {
+                    if token_matches_key(first_token, &key) {
                         let result = self.unwrap(rest_of_pointer, options, hints)?;
                         folded = optional_common_shape(folded, result);
                     } else {
-- 
2.43.0


From 4af62dfd52bba19a8086631f015ff35eb7e0d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 15/62] fix: reject too deeply nested samples instead of
 overflowing the stack

---
 .../src/inference/jsoninputerr.rs             |  2 ++
 json_typegen_shared/src/inference/jsonlex.rs  | 27 ++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninputerr.rs b/json_typegen_shared/src/inference/jsoninputerr.rs
index 2569f12..4ae4c89 100644
--- a/json_typegen_shared/src/inference/jsoninputerr.rs
+++ b/json_typegen_shared/src/inference/jsoninputerr.rs
@@ -12,6 +12,8 @@ pub enum JsonInputErr {
     InvalidEscape(u8),
     #[error("Reached end of input while parsing")]
     UnexpectedEndOfInput,
+    #[error("Sample contained too deeply nested JSON")]
+    NestingTooDeep,
     #[error("Unwrap pointer matched no values")]
     NoMatchForUnwrap,
     #[error("Hint is not valid for the matched value")]
diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 26cb0dd..be90a34 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -17,9 +17,14 @@ pub enum JsonToken {
     Colon,
 }
 
+/// Inference is recursive, so the nesting has to be limited to not overflow the stack.
+/// This is the same limit as in serde_json.
+const MAX_NESTING: usize = 127;
+
 pub struct JsonLexer<R: Read> {
     bytes: Peekable<Bytes<BufReader<R>>>, // TODO: Keep position info
     failed: bool,
+    nesting: usize,
     buffer: Vec<u8>,
 }
 
@@ -30,6 +35,7 @@ impl<R: Read> JsonLexer<R> {
                 .bytes()
                 .peekable(),
             failed: false,
+            nesting: 0,
             buffer: Vec::new(),
         }
     }
@@ -47,10 +53,10 @@ impl<R: Read> JsonLexer<R> {
                     self.bytes.next();
                     continue;
                 }
-                b'{' => self.skip_and_produce(JsonToken::ObjectStart),
-                b'}' => self.skip_and_produce(JsonToken::ObjectEnd),
-                b'[' => self.skip_and_produce(JsonToken::ArrayStart),
-                b']' => self.skip_and_produce(JsonToken::ArrayEnd),
+                b'{' => self.start_nested(JsonToken::ObjectStart),
+                b'}' => self.end_nested(JsonToken::ObjectEnd),
+                b'[' => self.start_nested(JsonToken::ArrayStart),
+                b']' => self.end_nested(JsonToken::ArrayEnd),
                 b',' => self.skip_and_produce(JsonToken::Comma),
                 b':' => self.skip_and_produce(JsonToken::Colon),
                 b't' => self.match_token("true", JsonToken::True),
@@ -68,6 +74,19 @@ impl<R: Read> JsonLexer<R> {
         Ok(token)
     }
 
+    fn start_nested(&mut self, token: JsonToken) -> Result<JsonToken, JsonInputErr> {
+        if self.nesting == MAX_NESTING {
+            return Err(JsonInputErr::NestingTooDeep);
+        }
+        self.nesting += 1;
+        self.skip_and_produce(token)
+    }
+
+    fn end_nested(&mut self, token: JsonToken) -> Result<JsonToken, JsonInputErr> {
+        self.nesting = self.nesting.saturating_sub(1);
+        self.skip_and_produce(token)
+    }
+
     fn expect_byte(&mut self) -> Result<u8, JsonInputErr> {
         match self.bytes.next() {
             Some(Ok(byte)) => Ok(byte),
-- 
2.43.0


From d09f49537de575dfe0d075ef405c04610a1b3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 16/62] fix: do not truncate the output file when code
 generation fails

---
 json_typegen_cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..6321b8c 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -84,7 +84,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             options.output_mode = OutputMode::parse(output_mode).ok_or("Invalid output mode")?;
         }
         codegen(name, &input, options)
-    };
+    }?;
 
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
@@ -94,9 +94,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 169052b98fa82ee9cc44189029c19b6668e8eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 17/62] fix: do not treat sample files named json_typegen* as
 macro invocations

---
 json_typegen_cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 6321b8c..015e753 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -72,7 +72,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         source.to_string()
     };
 
-    let code = if input.trim().starts_with("json_typegen") {
+    let code = if input.trim().starts_with("json_typegen!") {
         codegen_from_macro(&input)
     } else {
         let name = matches.value_of("name").unwrap_or("Root");
-- 
2.43.0


From 9cd9328dc8da63ff9c75aeb226b96f1636f2ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 18/62] fix: accept zod as an output mode in the CLI

---
 json_typegen_cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 015e753..930c655 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -53,6 +53,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
                     "kotlin/kotlinx",
                     "python",
                     "json_schema",
+                    "zod",
                     "shape",
                 ])
                 .help("What to output.")
-- 
2.43.0


From bf2a0b9b644b82b494ad61b4b50dc4a84ced73f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 19/62] fix: return an error for SQL without a CREATE TABLE
 statement

---
 json_typegen_shared/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..d817a8a 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,10 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            let (_name, shape) = shapes.into_iter().next().ok_or_else(|| {
+                JTError::SqlParsingError("No CREATE TABLE statement found".to_string())
+            })?;
+            shape
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From fe8182a1420ecd12853d7312052f80b9a8566849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 20/62] fix: do not include the quotes of quoted SQL
 identifiers in member names

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From 5d0e200b9fb4613204b35bf2e65f2fccfd15b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 21/62] fix: escape keys in Rust rename attributes

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..fc2e82e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -252,7 +252,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 9b77f1c16dcedd671533884b8f876d36aec77e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 22/62] fix: treat dyn and gen as Rust keywords

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index fc2e82e..13de0b4 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -154,7 +154,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From 356795f37596b73baf35f9131b9efa7e93708c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 23/62] fix: collapse Option<Vec> also when the Vec comes from
 arrays of equal length

---
 json_typegen_shared/src/generation/rust.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 13de0b4..39814bc 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -76,11 +76,10 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         Integer => ("i64".into(), None),
         Floating => ("f64".into(), None),
         Tuple(shapes, _n) => {
-            let folded = shape::fold_shapes(shapes.clone());
-            if folded == Any && shapes.iter().any(|s| s != &Any) {
+            if is_heterogeneous(shapes) {
                 generate_tuple_type(ctxt, path, shapes)
             } else {
-                generate_vec_type(ctxt, path, &folded)
+                generate_vec_type(ctxt, path, &shape::fold_shapes(shapes.clone()))
             }
         }
         VecT { elem_type: e } => generate_vec_type(ctxt, path, e),
@@ -106,6 +105,11 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
     }
 }
 
+/// Should a shape with these elements be a tuple type (rather than a Vec)?
+fn is_heterogeneous(shapes: &[Shape]) -> bool {
+    shape::fold_shapes(shapes.to_vec()) == Shape::Any && shapes.iter().any(|s| s != &Shape::Any)
+}
+
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
@@ -191,8 +195,12 @@ fn type_or_field_name(
 fn collapse_option_vec<'a>(ctxt: &mut Ctxt, typ: &'a Shape) -> (bool, &'a Shape) {
     if !(ctxt.options.allow_option_vec || ctxt.options.use_default_for_missing_fields) {
         if let Shape::Optional(inner) = typ {
-            if let Shape::VecT { .. } = **inner {
-                return (true, &**inner);
+            match **inner {
+                Shape::VecT { .. } => return (true, &**inner),
+                Shape::Tuple(ref shapes, _n) if !is_heterogeneous(shapes) => {
+                    return (true, &**inner);
+                }
+                _ => {}
             }
         }
     }
-- 
2.43.0


From b51934ed0324e6b27d7c36af60bd0fe87a3e35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 24/62] fix: use_default_for_missing_fields must not make
 nullable members non-nullable

#[serde(default)] (and similar) is for missing members, an explicit null still has to be accepted.
---
 json_typegen_shared/src/generation/kotlin.rs              | 6 +-----
 json_typegen_shared/src/generation/python.rs              | 8 ++------
 json_typegen_shared/src/generation/rust.rs                | 6 +-----
 .../src/generation/typescript_type_alias.rs               | 6 +-----
 json_typegen_shared/src/generation/zod_schema.rs          | 6 +-----
 5 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..151831e 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -83,11 +83,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("{}?", inner), defs)
-            }
+            (format!("{}?", inner), defs)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..b77a3ae 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -129,12 +129,8 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                let optional = import(ctxt, Import::Optional);
-                (format!("{}[{}]", optional, inner), defs)
-            }
+            let optional = import(ctxt, Import::Optional);
+            (format!("{}[{}]", optional, inner), defs)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 39814bc..68dcdb1 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -96,11 +96,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..bdea337 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -66,11 +66,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{} | null", inner)
-            }
+            format!("{} | null", inner)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..75422a8 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -69,11 +69,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{}.nullable()", inner)
-            }
+            format!("{}.nullable()", inner)
         }
     }
 }
-- 
2.43.0


From 553276f7d56a6992d68bbcedec150bd8a0ccc4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 25/62] fix: keep members clear of the field added by
 collect_additional

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 json_typegen_shared/src/generation/rust.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 151831e..75dd4a3 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -209,6 +209,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 68dcdb1..d43ed3b 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -241,6 +241,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From 9e1315ccb26ab28aeb02004704d54643b4b731bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 26/62] fix: do not give nested types the name of a type that
 the generated code uses

---
 json_typegen_shared/src/generation/kotlin.rs | 14 ++++++++++++++
 json_typegen_shared/src/generation/python.rs | 10 ++++++++++
 json_typegen_shared/src/generation/rust.rs   | 10 ++++++++++
 3 files changed, 34 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 75dd4a3..b4d3b88 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -25,6 +25,13 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
+    ctxt.type_names.extend(
+        USED_TYPE_NAMES
+            .iter()
+            .filter(|&&used| used != name)
+            .map(|used| used.to_string()),
+    );
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
@@ -143,6 +150,13 @@ const KOTLIN_KEYWORDS: &[&str] = &[
     "try", "typealias", "val", "var", "when", "while",
 ];
 
+// Names the generated code refers to, which nested types must not shadow
+#[rustfmt::skip]
+const USED_TYPE_NAMES: &[&str] = &[
+    "Any", "Boolean", "Double", "JsonAnyGetter", "JsonAnySetter", "JsonNaming", "JsonProperty", "List",
+    "Long", "Map", "Pair", "PropertyNamingStrategies", "SerialName", "Serializable", "String", "Triple",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index b77a3ae..c9e340c 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -53,6 +53,13 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
+    ctxt.type_names.extend(
+        USED_TYPE_NAMES
+            .iter()
+            .filter(|&&used| used != name)
+            .map(|used| used.to_string()),
+    );
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
@@ -185,6 +192,9 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+// Names the generated code refers to, which nested types must not shadow
+const USED_TYPE_NAMES: &[&str] = &["Any", "BaseModel", "Field", "Optional"];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index d43ed3b..f465719 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -36,6 +36,13 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .join(", ");
     };
 
+    ctxt.type_names.extend(
+        USED_TYPE_NAMES
+            .iter()
+            .filter(|&&used| used != name)
+            .map(|used| used.to_string()),
+    );
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
@@ -157,6 +164,9 @@ const RUST_KEYWORDS: &[&str] = &[
     "await", "try", "dyn", "gen",
 ];
 
+// Names the generated code refers to, which nested types must not shadow
+const USED_TYPE_NAMES: &[&str] = &["HashMap", "Option", "String", "Value", "Vec"];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
-- 
2.43.0


From efd216530a31da4c09ffe5a4435a3d9ab039e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 27/62] fix: parenthesize union types in TypeScript array types

---
 json_typegen_shared/src/generation/typescript.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..fd93e41 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,7 +75,11 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
-    (format!("{}[]", inner), defs)
+    if inner.contains('|') {
+        (format!("({})[]", inner), defs)
+    } else {
+        (format!("{}[]", inner), defs)
+    }
 }
 
 fn generate_map_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
-- 
2.43.0


From 451275958a6f3068247be431194c11dd0c4bc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 28/62] fix: do not generate TypeScript interface names that
 start with a digit

---
 json_typegen_shared/src/generation/typescript.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index fd93e41..167e003 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -118,6 +118,9 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
+    if output_name.starts_with(|c: char| c.is_ascii_digit()) {
+        output_name = String::from("N") + &output_name;
+    }
     if !used_names.contains(&output_name) {
         return output_name;
     }
-- 
2.43.0


From 7b1491c18db98717b8682d607753bbbc89c69cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 29/62] fix: escape strings in JSON Schema and shape output

---
 json_typegen_shared/src/generation/value.rs | 24 +++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..8c688af 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -10,12 +10,32 @@ pub enum Value {
     Object(LinkedHashMap<String, Value>),
 }
 
+/// Format a string as a JSON string literal
+///
+/// Only uses escapes that mean the same thing in JSON, TypeScript, Python and Kotlin.
+pub fn string_literal(s: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => literal += "\\\"",
+            '\\' => literal += "\\\\",
+            '\n' => literal += "\\n",
+            '\r' => literal += "\\r",
+            '\t' => literal += "\\t",
+            c if c < ' ' => literal += &format!("\\u{:04x}", c as u32),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 pub fn pretty_print_value(indent: usize, value: &Value) -> String {
     match value {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => string_literal(s),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +56,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("{}: ", string_literal(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
-- 
2.43.0


From 77d37669448b5738fcb599f277360c062f3a36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 30/62] fix: escape keys in TypeScript and Zod output

---
 json_typegen_shared/src/generation/typescript.rs      | 11 +++++++----
 .../src/generation/typescript_type_alias.rs           | 11 +++++++----
 json_typegen_shared/src/generation/zod_schema.rs      | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 167e003..495a0c1 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -1,6 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
+use crate::generation::value::string_literal;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
@@ -203,10 +204,12 @@ fn generate_interface_type(
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "    {}{}{}{}: {};",
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                "    {}{}: {};",
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.to_string()
+                },
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index bdea337..7b34c7e 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -1,6 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
+use crate::generation::value::string_literal;
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
 
@@ -106,11 +107,13 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}{}: {};",
+                "{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.to_string()
+                },
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 75422a8..52dd9cb 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -1,6 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
+use crate::generation::value::string_literal;
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
 use crate::util::lower_camel_case;
@@ -107,11 +108,13 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.to_string()
+                },
                 field_type
             )
         })
-- 
2.43.0


From 7291a9acf537c6268f49dddb29ec5a61d0ea18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 31/62] fix: separate the members of Zod objects with commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 52dd9cb..ca647e6 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -108,7 +108,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}: {};",
+                "{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name {
                     string_literal(name)
-- 
2.43.0


From 647bb452413d38be41bdd16b927ff4adb59852d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 32/62] fix: keep a __proto__ member a normal member in Zod
 output

---
 json_typegen_shared/src/generation/zod_schema.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index ca647e6..0f65ec6 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -110,7 +110,10 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             format!(
                 "{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name {
+                if name == "__proto__" {
+                    // would set the prototype if not a computed key
+                    "[\"__proto__\"]".to_string()
+                } else if escape_name {
                     string_literal(name)
                 } else {
                     name.to_string()
-- 
2.43.0


From 45afdabd994802368213ece5caf989af90a58b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 33/62] fix: accept null for nullable values in generated JSON
 Schemas

---
 json_typegen_shared/src/generation/json_schema.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..af60ecb 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,10 +53,21 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => nullable(type_from_shape(ctxt, path, e)),
     }
 }
 
+/// Let the schema also accept null
+fn nullable(mut schema: Value) -> Value {
+    if let Value::Object(ref mut map) = schema {
+        if let Some(typ) = map.get_mut("type") {
+            let non_null = std::mem::replace(typ, Value::Null);
+            *typ = Value::Array(vec![non_null, Value::Str("null")]);
+        }
+    }
+    schema
+}
+
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
     let singular = to_singular(path);
     let inner = type_from_shape(ctxt, &singular, shape);
-- 
2.43.0


From f71defa3e5ee24df0f5f2131aee46deb7b18d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 34/62] fix: malformed JsonNaming annotation for kebab-case in
 Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index b4d3b88..253ba07 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -333,7 +333,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From 8bbc0046c28f8caa5b805e7815d6b5c02bdd96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 35/62] fix: treat typeof as a Kotlin keyword

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 253ba07..a4ea2c1 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -147,7 +147,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 // Names the generated code refers to, which nested types must not shadow
-- 
2.43.0


From 4778c5e77b5b7ece8156aba88c695b38e5380f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 36/62] fix: escape keys in Kotlin annotations

---
 json_typegen_shared/src/generation/kotlin.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a4ea2c1..1959226 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -2,6 +2,7 @@ use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
 use crate::OutputMode;
+use crate::generation::value::string_literal;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
@@ -238,15 +239,15 @@ fn generate_data_class(
             if &apply_transform(ctxt, &field_name) != name {
                 if ctxt.options.output_mode == OutputMode::KotlinJackson {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        string_literal(name).replace('$', "\\$")
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        string_literal(name).replace('$', "\\$")
                     )
                 }
             }
-- 
2.43.0


From 8fd27eb530eab9c718779e21036033f5381f7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 37/62] fix: always use the actual key as the alias of a Python
 field

pydantic has no rename_all, so with property_name_format set the alias of any
key not already in that format was a key that is not in the JSON.
---
 json_typegen_shared/src/generation/python.rs | 23 ++++----------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index c9e340c..48ec1bf 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -1,10 +1,10 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
-use crate::options::{ImportStyle, Options, StringTransform};
+use crate::options::{ImportStyle, Options};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -269,12 +269,11 @@ fn generate_data_class(
             }
 
             let mut field_code = String::new();
-            let transformed = apply_transform(ctxt, &field_name, name);
-            if transformed != field_name {
+            if name != &field_name {
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    transformed
+                    name
                 )
             }
 
@@ -307,20 +306,6 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
-fn apply_transform(ctxt: &Ctxt, field_name: &str, name: &str) -> String {
-    match ctxt.options.property_name_format {
-        Some(StringTransform::LowerCase) => field_name.to_ascii_lowercase(),
-        Some(StringTransform::PascalCase) => type_case(field_name),
-        Some(StringTransform::SnakeCase) => snake_case(field_name),
-        Some(StringTransform::KebabCase) => kebab_case(field_name),
-        Some(StringTransform::UpperCase) => field_name.to_ascii_uppercase(),
-        Some(StringTransform::CamelCase) => lower_camel_case(field_name),
-        Some(StringTransform::ScreamingSnakeCase) => snake_case(field_name).to_ascii_uppercase(),
-        Some(StringTransform::ScreamingKebabCase) => kebab_case(field_name).to_ascii_uppercase(),
-        None => name.to_string(),
-    }
-}
-
 #[cfg(test)]
 mod python_codegen_tests {
     use super::*;
-- 
2.43.0


From c1a055402f45771cbbe27b9188ea23ad2165ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 38/62] fix: escape keys in Python aliases

---
 json_typegen_shared/src/generation/python.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 48ec1bf..212cf4f 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -1,6 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
+use crate::generation::value::string_literal;
 use crate::options::{ImportStyle, Options};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
@@ -271,9 +272,9 @@ fn generate_data_class(
             let mut field_code = String::new();
             if name != &field_name {
                 field_code += &format!(
-                    " = {}(alias=\"{}\")",
+                    " = {}(alias={})",
                     import(ctxt, Import::Field),
-                    name
+                    string_literal(name)
                 )
             }
 
-- 
2.43.0


From 28ddf4e269e78304bdd472fee6798680803b2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 39/62] fix: do not let Python fields shadow types used in
 annotations or BaseModel attributes

---
 json_typegen_shared/src/generation/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 212cf4f..a38db3d 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -191,6 +191,11 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "def", "del", "elif", "else", "except", "finally", "for", "from", "global",
     "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass",
     "raise", "return", "try", "while", "with", "yield",
+    // not keywords, but a field with a default value would shadow these for the fields after it
+    "bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing",
+    // not keywords, but pydantic does not allow fields that shadow an attribute of BaseModel
+    "construct", "copy", "from_orm", "json", "parse_file", "parse_obj", "parse_raw", "schema",
+    "schema_json", "update_forward_refs", "validate",
 ];
 
 // Names the generated code refers to, which nested types must not shadow
-- 
2.43.0


From 2833fb5ba5a91b36dc26b0afb97f7870dba795d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 40/62] fix: quote forward references in Python output

---
 json_typegen_shared/src/generation/python.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index a38db3d..0302621 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -41,6 +41,7 @@ struct Ctxt {
     type_names: HashSet<String>,
     imports: HashSet<Import>,
     created_classes: Vec<(Shape, Ident)>,
+    unfinished_classes: Vec<Ident>,
 }
 
 pub type Ident = String;
@@ -52,6 +53,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         type_names: HashSet::new(),
         imports: HashSet::new(),
         created_classes: Vec::new(),
+        unfinished_classes: Vec::new(),
     };
 
     ctxt.type_names.extend(
@@ -248,6 +250,10 @@ fn generate_data_class(
 ) -> (Ident, Option<Code>) {
     for (created_for_shape, ident) in ctxt.created_classes.iter() {
         if created_for_shape.is_acceptable_substitution_for(containing_shape) {
+            if ctxt.unfinished_classes.contains(ident) {
+                // forward reference, i.e. the class is declared after (or is) the current one
+                return (format!("\"{}\"", ident), None);
+            }
             return (ident.into(), None);
         }
     }
@@ -256,6 +262,7 @@ fn generate_data_class(
     ctxt.type_names.insert(type_name.clone());
     ctxt.created_classes
         .push((containing_shape.clone(), type_name.clone()));
+    ctxt.unfinished_classes.push(type_name.clone());
 
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
@@ -309,6 +316,8 @@ fn generate_data_class(
         code = d;
     }
 
+    ctxt.unfinished_classes.pop();
+
     (type_name, Some(code))
 }
 
-- 
2.43.0


From d2a5c0106495769611434fe9315ad816738ebff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 41/62] fix: do not give a nested type the name of the root
 alias

---
 json_typegen_shared/src/generation/kotlin.rs     | 2 +-
 json_typegen_shared/src/generation/python.rs     | 2 +-
 json_typegen_shared/src/generation/rust.rs       | 2 +-
 json_typegen_shared/src/generation/typescript.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 1959226..b8e35f0 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -33,7 +33,7 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
             .map(|used| used.to_string()),
     );
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 0302621..857f1af 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -63,7 +63,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
             .map(|used| used.to_string()),
     );
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index f465719..1ea0cf6 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -43,7 +43,7 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .map(|used| used.to_string()),
     );
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 495a0c1..55f4f61 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -23,7 +23,7 @@ pub fn typescript_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_interfaces: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
-- 
2.43.0


From 10e435b804d62a02ffb82c7b782088c102e1c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 42/62] fix: file extension when downloading Zod schemas

---
 json_typegen_web/src/lib/download.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_web/src/lib/download.ts b/json_typegen_web/src/lib/download.ts
index 2f851d8..fdd13cb 100644
--- a/json_typegen_web/src/lib/download.ts
+++ b/json_typegen_web/src/lib/download.ts
@@ -7,6 +7,7 @@ function createFilename(typename: string, output_mode: string): string {
     "kotlin/kotlinx": "kt",
     python: "py",
     json_schema: "json",
+    zod: "ts",
     shape: "json",
   };
   return typename + "." + extensions[output_mode];
-- 
2.43.0


From b3b5c0ae9b83f312ef93e1349c8956fb0cbf7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 43/62] fix: do not let Python fields shadow classes with names
 starting with a digit

---
 json_typegen_shared/src/generation/python.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 857f1af..b2c910c 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -182,7 +182,14 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
 }
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "GeneratedType", type_case)
+    type_or_field_name(name, used_names, "GeneratedType", |name| {
+        let name = type_case(name);
+        if name.starts_with(|c: char| c.is_ascii_digit()) {
+            // not "n", since then a field could have the same name
+            return String::from("N") + &name;
+        }
+        name
+    })
 }
 
 // https://docs.python.org/3/reference/lexical_analysis.html#keywords
-- 
2.43.0


From c8f639c1606fb66e3ca63e6e4724a21ddec854b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 44/62] fix: ignore outdated file reads in the web worker and
 always answer LOAD_FILE

---
 json_typegen_web/src/lib/worker.ts | 42 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 38c20ff..5ca9b6b 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -4,6 +4,9 @@ import init, { run } from "json_typegen_wasm";
 import { readFileAsString } from "./file";
 
 let largeFileInput: string | undefined;
+let largeFileError: string | undefined;
+// incremented for each LOAD_FILE and CLEAR_FILE, to recognize outdated reads
+let fileRequest = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
 init().then(() => {
@@ -16,12 +19,10 @@ onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
-    const input = largeFileInput || message.input;
-    const result = run(
-      message.typename,
-      input,
-      JSON.stringify(message.options),
-    );
+    const input = largeFileInput ?? message.input;
+    const result =
+      largeFileError ??
+      run(message.typename, input, JSON.stringify(message.options));
     postMsg({
       type: WorkerMessage.CODEGEN_COMPLETE,
       result,
@@ -29,14 +30,31 @@ onmessage = (messageEvent) => {
       options: message.options,
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
-    readFileAsString(message.file).then((fileContent) => {
-      largeFileInput = fileContent;
-      postMsg({
-        type: WorkerMessage.LOAD_FILE_COMPLETE,
-      });
-    });
+    const request = ++fileRequest;
+    largeFileInput = undefined;
+    largeFileError = undefined;
+    readFileAsString(message.file).then(
+      (fileContent) => {
+        if (request === fileRequest) {
+          largeFileInput = fileContent;
+        }
+        postMsg({
+          type: WorkerMessage.LOAD_FILE_COMPLETE,
+        });
+      },
+      () => {
+        if (request === fileRequest) {
+          largeFileError = "Error: Unable to read file";
+        }
+        postMsg({
+          type: WorkerMessage.LOAD_FILE_COMPLETE,
+        });
+      },
+    );
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
+    fileRequest++;
     largeFileInput = undefined;
+    largeFileError = undefined;
   } else {
     console.warn("Unknown message to worker", messageEvent);
   }
-- 
2.43.0


From 2461b842423b30bf88255b2e52122f32bbb8278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 45/62] fix: replace a large file when an example or a small
 file is loaded

---
 json_typegen_web/src/App.svelte | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d19b1dd..ddb7bea 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -57,6 +57,8 @@
     let extraOptionsError: string | null = null;
     let isLoadingLargeFile = false;
     let largeFileMessage: string | null = null;
+    // incremented whenever the input is replaced, to recognize outdated reads
+    let fileRequest = 0;
 
     let downloadLink: DownloadLinkProps = getDownloadLinkProps(
         output,
@@ -151,6 +153,7 @@
     }
 
     const loadExample = (example: Example) => {
+        clearFile();
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
@@ -163,6 +166,7 @@
             return;
         }
         filename = file.name;
+        const request = ++fileRequest;
         if (file.size > 500_000) {
             input = "";
             isLoadingLargeFile = true;
@@ -175,12 +179,17 @@
             workerReady = false;
         } else {
             readFileAsString(file).then((contents: string) => {
+                if (request !== fileRequest) {
+                    return;
+                }
+                clearFile();
                 input = contents;
             });
         }
     };
 
     const clearFile = () => {
+        fileRequest++;
         input = "";
         largeFileMessage = null;
         isLoadingLargeFile = false;
-- 
2.43.0


From 8db02fe01a77f5430b166ba80e9e4407c2522f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 46/62] fix: wait for the WASM module before running code
 generation in the web worker

---
 json_typegen_web/src/lib/worker.ts | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 5ca9b6b..9d7ea2b 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -9,7 +9,8 @@ let largeFileError: string | undefined;
 let fileRequest = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
-init().then(() => {
+const wasmReady = init();
+wasmReady.then(() => {
   postMsg({
     type: WorkerMessage.WASM_READY,
   });
@@ -19,15 +20,18 @@ onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
-    const input = largeFileInput ?? message.input;
-    const result =
-      largeFileError ??
-      run(message.typename, input, JSON.stringify(message.options));
-    postMsg({
-      type: WorkerMessage.CODEGEN_COMPLETE,
-      result,
-      typename: message.typename,
-      options: message.options,
+    // LOAD_FILE is answered also before this, so the page may consider the worker ready
+    wasmReady.then(() => {
+      const input = largeFileInput ?? message.input;
+      const result =
+        largeFileError ??
+        run(message.typename, input, JSON.stringify(message.options));
+      postMsg({
+        type: WorkerMessage.CODEGEN_COMPLETE,
+        result,
+        typename: message.typename,
+        options: message.options,
+      });
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
     const request = ++fileRequest;
-- 
2.43.0


From e9405902e4b724a1efd6c02657efcc2f6c395c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 47/62] fix: reuse a declared type for nullable members that
 only differ in member order

---
 json_typegen_shared/src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index c0cfe87..5979f54 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -138,6 +138,7 @@ impl Shape {
         match (self, other) {
             (_, Bottom) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
+            (Nullable(a), Nullable(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
             }
-- 
2.43.0


From 90a0737a7499605ab07264712f82b7e478d87ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:34 +0000
Subject: [PATCH 48/62] fix: reject macro input with content after the options
 string

---
 json_typegen_shared/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..64cf9c9 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -90,7 +90,12 @@ pub fn macro_input(input: &str) -> Result<MacroInput, String> {
     )?;
 
     let options = match string(input) {
-        IResult::Done(_, lit) => options_with_defaults(&lit.value, default_options)?,
+        IResult::Done(remaining, lit) => {
+            if !remaining.trim().is_empty() {
+                fail!("Expected end of input after third argument", remaining)
+            }
+            options_with_defaults(&lit.value, default_options)?
+        }
         IResult::Error => options_with_defaults(input, default_options)?,
     };
 
-- 
2.43.0


From cc4a12bbeaad481e0e7f5b1cd4d58d08bd515b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 49/62] fix: do not give a nested Rust type the name of an
 imported derive

---
 json_typegen_shared/src/generation/rust.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 1ea0cf6..433dfee 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -26,6 +26,15 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
     };
 
     if ctxt.options.import_style != ImportStyle::QualifiedPaths {
+        // a nested type must not have the name of an imported trait
+        ctxt.type_names.extend(
+            ctxt.options
+                .derives
+                .split(',')
+                .filter_map(|derive| Some(derive.trim().rsplit_once("::")?.1))
+                .filter(|&used| used != name)
+                .map(|used| used.to_string()),
+        );
         ctxt.options.derives = ctxt
             .options
             .derives
-- 
2.43.0


From 902eb9aae862b98bfa30c99831fe2e1dd74a0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 50/62] fix: report macro errors containing "# with their whole
 message

---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From 021dfcc036d0855abc8ffb4add57185682ca1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 51/62] fix: report a failure to write to standard output
 instead of panicking or ignoring it

---
 json_typegen_cli/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 930c655..85bf90d 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -97,7 +97,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
 
         file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code);
+        let mut stdout = io::stdout();
+        stdout.write_all(code.as_bytes())?;
+        stdout.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From b8d2a74c89737eea0ddc384ce548facdbe7277b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 52/62] fix: answer code generation requests in the web worker
 also when the module fails

---
 json_typegen_web/src/lib/worker.ts | 34 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 9d7ea2b..41f7370 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -10,29 +10,37 @@ let fileRequest = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
 const wasmReady = init();
-wasmReady.then(() => {
+const reportReady = () => {
   postMsg({
     type: WorkerMessage.WASM_READY,
   });
-});
+};
+// if the module cannot be loaded, requests are answered with an error
+wasmReady.then(reportReady, reportReady);
 
 onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
     // LOAD_FILE is answered also before this, so the page may consider the worker ready
-    wasmReady.then(() => {
-      const input = largeFileInput ?? message.input;
-      const result =
-        largeFileError ??
-        run(message.typename, input, JSON.stringify(message.options));
-      postMsg({
-        type: WorkerMessage.CODEGEN_COMPLETE,
-        result,
-        typename: message.typename,
-        options: message.options,
+    wasmReady
+      .then(() => {
+        const input = largeFileInput ?? message.input;
+        return (
+          largeFileError ??
+          run(message.typename, input, JSON.stringify(message.options))
+        );
+      })
+      // every request is answered, or the page would wait forever
+      .catch((e) => `Error: Code generation failed: ${e}`)
+      .then((result) => {
+        postMsg({
+          type: WorkerMessage.CODEGEN_COMPLETE,
+          result,
+          typename: message.typename,
+          options: message.options,
+        });
       });
-    });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
     const request = ++fileRequest;
     largeFileInput = undefined;
-- 
2.43.0


From ff4f41f5780902a250175a851c48b9f5409069f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 53/62] fix: show an error when a small file cannot be read in
 the web interface

---
 json_typegen_web/src/App.svelte | 44 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index ddb7bea..0ef00b4 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -168,26 +168,38 @@
         filename = file.name;
         const request = ++fileRequest;
         if (file.size > 500_000) {
-            input = "";
-            isLoadingLargeFile = true;
-            const fileSizeMb = (file.size / 1_000_000).toFixed(2);
-            largeFileMessage = `"${file.name}" (${fileSizeMb} MB)`;
-            worker.postMessage({
-                type: WorkerMessage.LOAD_FILE,
-                file,
-            });
-            workerReady = false;
+            loadFileInWorker(file);
         } else {
-            readFileAsString(file).then((contents: string) => {
-                if (request !== fileRequest) {
-                    return;
-                }
-                clearFile();
-                input = contents;
-            });
+            readFileAsString(file).then(
+                (contents: string) => {
+                    if (request !== fileRequest) {
+                        return;
+                    }
+                    clearFile();
+                    input = contents;
+                },
+                () => {
+                    // the worker is not able to read it either, and reports that
+                    if (request === fileRequest) {
+                        loadFileInWorker(file);
+                    }
+                },
+            );
         }
     };
 
+    const loadFileInWorker = (file: File) => {
+        input = "";
+        isLoadingLargeFile = true;
+        const fileSizeMb = (file.size / 1_000_000).toFixed(2);
+        largeFileMessage = `"${file.name}" (${fileSizeMb} MB)`;
+        worker.postMessage({
+            type: WorkerMessage.LOAD_FILE,
+            file,
+        });
+        workerReady = false;
+    };
+
     const clearFile = () => {
         fileRequest++;
         input = "";
-- 
2.43.0


From 75950578d884235e45da4294c569c82c9ee5e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 54/62] fix: render again when a file is cleared in the web
 interface

---
 json_typegen_web/src/App.svelte | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 0ef00b4..62fea7c 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -208,6 +208,8 @@
         worker.postMessage({
             type: WorkerMessage.CLEAR_FILE,
         });
+        // the input may be unchanged, as it is empty while a large file is shown
+        render();
     };
 
     const formatInput = () => {
-- 
2.43.0


From 65a7d2c036dafa1ff3316b4406be95a5681286cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 55/62] fix: do not replace typed text by a file read that was
 started before

---
 json_typegen_web/src/App.svelte | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 62fea7c..e2042b6 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -152,6 +152,12 @@
         render();
     }
 
+    // typing replaces a file that is still being read
+    const cancelFileRead = (_input: string) => {
+        fileRequest++;
+    };
+    $: cancelFileRead(input);
+
     const loadExample = (example: Example) => {
         clearFile();
         input = example.json;
-- 
2.43.0


From 4889b370607fe8efc4c46dca27e79e272ab77308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 56/62] fix: go on without stored parameters when local storage
 is not writable

---
 json_typegen_web/src/lib/localstorage.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/localstorage.ts b/json_typegen_web/src/lib/localstorage.ts
index 99fd342..4fb46f5 100644
--- a/json_typegen_web/src/lib/localstorage.ts
+++ b/json_typegen_web/src/lib/localstorage.ts
@@ -14,7 +14,12 @@ type StoredParams = {
 };
 
 export function storeParams(params: StoredParams) {
-  localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  try {
+    localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  } catch (e) {
+    // storage may be full or not available
+    console.error(e);
+  }
 }
 
 export function restoreParams(): StoredParams {
-- 
2.43.0


From 10179df8179b7e7554c106e5f7d858e0f7dfd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 57/62] fix: report CLI arguments that are not valid UTF-8
 instead of panicking

---
 json_typegen_cli/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 85bf90d..0ff6ebe 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -1,4 +1,4 @@
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 use json_typegen_shared::internal_util::display_error_with_causes;
 use json_typegen_shared::{Options, OutputMode, codegen, codegen_from_macro, parse};
 use std::fs::OpenOptions;
@@ -8,6 +8,8 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
     let matches = App::new("json_typegen CLI")
         .version(env!("CARGO_PKG_VERSION"))
         .about("Generate Rust types from JSON samples")
+        // without this, an argument that is not valid UTF-8 makes value_of panic
+        .setting(AppSettings::StrictUtf8)
         .arg(
             Arg::with_name("input")
                 .help(concat!(
-- 
2.43.0


From 259441ee3ff5c7dc47053d6296a2bec2a61acd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 58/62] fix: exit with code 1 also when standard error is not
 writable

---
 json_typegen_cli/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 0ff6ebe..a3aad40 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -111,7 +111,12 @@ fn main() {
     let result = main_with_result();
 
     if let Err(e) = result {
-        eprintln!("Error: {}", display_error_with_causes(&*e));
+        // not eprintln!, as that panics if standard error is not writable
+        let _ = writeln!(
+            io::stderr(),
+            "Error: {}",
+            display_error_with_causes(&*e)
+        );
         std::process::exit(1);
     }
 }
-- 
2.43.0


From 1ea7766eb4750cab4b7ea1ef24efc40fb77973f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 59/62] fix: report macro output that is not valid Rust as a
 compile error instead of panicking

---
 json_typegen/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index b62ff02..228af2f 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -67,13 +67,18 @@ use json_typegen_shared::internal_util::display_error_with_causes;
 /// `json_typegen!(<type name>, <sample source>, <options?>)`
 #[proc_macro]
 pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
-    match codegen_from_macro_input(&input.to_string()) {
+    let code = match codegen_from_macro_input(&input.to_string()) {
         Ok(code) => code,
-        Err(e) => {
-            let message = display_error_with_causes(&e);
-            format!("compile_error!({:?});", message)
-        }
-    }
-    .parse()
-    .unwrap()
+        Err(e) => compile_error(&display_error_with_causes(&e)),
+    };
+    // option values such as derives end up in the code as they are, so it may not be valid Rust
+    code.parse().unwrap_or_else(|e: proc_macro::LexError| {
+        compile_error(&format!("Generated code is not valid Rust: {}", e))
+            .parse()
+            .unwrap()
+    })
+}
+
+fn compile_error(message: &str) -> String {
+    format!("compile_error!({:?});", message)
 }
-- 
2.43.0


From 123e786108fda3264eef91da1a07fe3b3acb00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 60/62] fix: ignore blanks around the root name and after its
 visibility

---
 json_typegen_shared/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index d817a8a..7cb5e70 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -99,7 +99,7 @@ pub fn codegen_from_macro_input(input: &str) -> Result<String, JTError> {
 /// The main code generation function for `json_typegen`
 pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String, JTError> {
     let source = infer_source_type(input);
-    let name = handle_pub_in_name(name, &mut options);
+    let name = handle_pub_in_name(name.trim(), &mut options).trim_start();
 
     let mut hints_vec = Vec::new();
     std::mem::swap(&mut options.hints, &mut hints_vec);
-- 
2.43.0


From e612ec032a33450716252ddccfd82cd2399fa824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 61/62] fix: do not use Jackson annotations for
 collect_additional in kotlinx classes

---
 json_typegen_shared/src/generation/kotlin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index b8e35f0..64e8d7a 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -223,8 +223,11 @@ fn generate_data_class(
     ctxt.created_classes
         .push((containing_shape.clone(), type_name.clone()));
 
+    let collect_additional = ctxt.options.collect_additional
+        && ctxt.options.output_mode == OutputMode::KotlinJackson;
+
     let mut field_names = HashSet::new();
-    if ctxt.options.collect_additional {
+    if collect_additional {
         field_names.insert("additionalFields".to_string());
     }
     let mut defs = Vec::new();
@@ -275,7 +278,7 @@ fn generate_data_class(
         code += &fields.join(",\n");
         code += ",\n";
     }
-    if ctxt.options.collect_additional {
+    if collect_additional {
         code += &format!(
             "    @{}\n    @get:{}\n    val additionalFields: Map<String, Any> = mutableMapOf(),\n",
             import(ctxt, "com.fasterxml.jackson.annotation.JsonAnySetter"),
-- 
2.43.0


From 880bbf7a4013892e2e2d1b7f2c2d2649aa795c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 62/62] fix: control characters in the options made the web
 worker's requests fail

---
 json_typegen_web/src/lib/worker.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 41f7370..bfe6c3e 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -9,6 +9,14 @@ let largeFileError: string | undefined;
 let fileRequest = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
+// options are read as Rust literals, which have other escapes than JSON for control characters
+const escapes: Record<string, string> = { b: "\\u{8}", f: "\\u{c}" };
+const toOptionsBlock = (options: object) =>
+  JSON.stringify(options).replace(
+    /\\(?:u00([0-9a-f]{2})|(.))/g,
+    (escape, hex, letter) => (hex ? `\\u{${hex}}` : escapes[letter] ?? escape),
+  );
+
 const wasmReady = init();
 const reportReady = () => {
   postMsg({
@@ -28,7 +36,7 @@ onmessage = (messageEvent) => {
         const input = largeFileInput ?? message.input;
         return (
           largeFileError ??
-          run(message.typename, input, JSON.stringify(message.options))
+          run(message.typename, input, toOptionsBlock(message.options))
         );
       })
       // every request is answered, or the page would wait forever
-- 
2.43.0

