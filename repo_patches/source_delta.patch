From 6c781c496f2c3e527701ba6fb3307c9169d9f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 1/6] fix: encode control characters as the correct \u escape

The nibbles were written least significant first, and digits above 9 were
offset from 'a' without subtracting 10, so U+0001 was written as \u1000 and
U+000B as the invalid escape \ul000.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..a7aee11 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8 & 0xF;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From dcc9bd26a8ffd0ebcb7a1774b7b2763826b5027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 2/6] fix: decode surrogate pairs beyond plane 1 correctly

The base 0x10000 was combined with OR although the shifted high surrogate
can already have that bit set, so U+20000 was decoded as U+10000.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index a7aee11..13224b2 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1043,7 +1043,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From dc4edcfa9004ee95ff9875f1729159a48e4d8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 3/6] fix: count U+0080 to U+00FF as two bytes when analyzing
 strings

u8::try_from(char) succeeds for the whole Latin-1 range, so JsonString::from
recorded one byte for characters that are two bytes long. len() and
decoded_len() were too small, and comparisons relying on them failed.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 13224b2..ed816ce 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From 6d66f11261145c2a4e591956b20e24bb5eb5e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 4/6] fix: compare decoded lengths when comparing raw and
 escaped strings

The quick length check compared the lengths of the encoded forms. The same
text can be encoded in more than one way, so "\u000a" was not equal to a
raw newline although both decode to the same string.
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index ed816ce..5885954 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if self.decoded_len() == b.len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if a.len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From e9d1d06967de04940c1f2dfb74c69e343a4d081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 5/6] fix: do not report an upper bound for strings that need
 escaping

Escaping yields more characters than the source has, so the upper bound of
the source's size_hint() was lower than the number of characters yielded.
---
 src/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 5885954..594dc34 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -887,7 +887,12 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        // Escaping can only make the string longer.
+        let (lower, upper) = self.chars.size_hint();
+        match self.state {
+            EscapeState::AlreadyEscaped => (lower, upper),
+            _ => (lower, None),
+        }
     }
 }
 
-- 
2.43.0


From cf6a4a7ca450ad925a1144ec269ef16d4e3b24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 6/6] fix: hash equal strings equally with any hasher

Strings with escapes were written to the hasher one character at a time and
strings without escapes all at once. Hasher does not guarantee that these are
equivalent, and with hashers that work on words instead of bytes equal strings
had different hashes.
---
 src/string.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 594dc34..a899f95 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -36,7 +36,8 @@ use crate::parser::{ParseDelegate, Parser};
 /// Additionally, this type implements `Ord`, `PartialOrd`, and `Hash` in ways
 /// that are consistent regardless of whether the string has escape sequences or
 /// not. If the underlying representation does not need extra processing, the
-/// built-in implementations for `&str` are always used.
+/// built-in implementations for `&str` are always used, except by `Hash`, which
+/// must split both representations into the same writes.
 #[derive(Debug, Eq, Clone)]
 pub struct JsonString<'a> {
     /// The JSON-source for the string.
@@ -477,6 +478,13 @@ fn json_string_cmp() {
     assert_lt!(jstr!("a"), JsonString::from("b"));
 }
 
+/// The number of bytes given to a [`Hasher`](hash::Hasher) at once.
+///
+/// A hasher is allowed to distinguish between one write and two writes of the
+/// same bytes. For equal strings to have equal hashes, both representations of
+/// a string must be split into the same writes.
+const HASH_CHUNK: usize = 64;
+
 impl<'a> hash::Hash for JsonString<'a> {
     fn hash<H: hash::Hasher>(&self, state: &mut H) {
         match &self.source {
@@ -485,13 +493,29 @@ impl<'a> hash::Hash for JsonString<'a> {
                 // hashing is done by converting to u32. We're purposely
                 // re-implementing Hasher::write_str via chars.
                 let mut char_bytes = [0; 4];
+                let mut chunk = [0; HASH_CHUNK];
+                let mut length = 0;
                 for ch in self.decoded() {
-                    state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
+                    for byte in ch.encode_utf8(&mut char_bytes).bytes() {
+                        chunk[length] = byte;
+                        length += 1;
+                        if length == HASH_CHUNK {
+                            state.write(&chunk);
+                            length = 0;
+                        }
+                    }
+                }
+                if length > 0 {
+                    state.write(&chunk[..length]);
+                }
+            }
+            StringContents::Json(str) | StringContents::Raw(str) => {
+                for chunk in str.as_bytes().chunks(HASH_CHUNK) {
+                    state.write(chunk);
                 }
-                state.write_u8(0xff); // from Hasher::write_str
             }
-            StringContents::Json(str) | StringContents::Raw(str) => str.hash(state),
         }
+        state.write_u8(0xff); // from Hasher::write_str
     }
 }
 
-- 
2.43.0

