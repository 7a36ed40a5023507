From 1fe807ab7c247666355da34ccb2baba7929f6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 1/5] fix: decode surrogate pairs above U+1FFFF

The supplementary-plane base was or-ed in instead of added, so every pair whose
high surrogate has bit 6 set (e.g. \ud840\udc00, U+20000) lost 0x10000.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..94102ce 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    (DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400)) | (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From 982a3fcb2edac4e4b7d5131ac57258102814c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 2/5] fix: write \uXXXX escapes most significant nibble first

Control characters without a short escape were encoded with their hexadecimal
digits reversed, and digits above 9 as the letters 'k'..='p': U+0001 became
\u1000 and U+001F became the invalid \up100.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 94102ce..67e1773 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8 & 0xF;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From e5e3ecf992ca36ae319fca9b79c7a9479239ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 3/5] fix: count U+0080..=U+00FF as two bytes when measuring
 raw strings

u8::try_from(char) succeeds for these characters, but their UTF-8 form is two
bytes, so len() and decoded_len() of strings made from &str/String were short.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 67e1773..1cca0d9 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From 34ee8666bbd13b2f29771cf71a6d8f5506a0ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 4/5] fix: compare decoded lengths when comparing parsed and
 raw strings

The quick length check compared the encoded lengths, so a parsed string whose
escapes are spelled differently from the encoder's (e.g. \u000a against a raw
newline) was reported as different from an equal string.
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 1cca0d9..ca71cc7 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if other.decoded_len() == self.decoded_len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if self.decoded_len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From 3b23a7b8ba63ffe48384f61839bc12a06b30b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 5/5] fix: do not promise an upper bound on the length of
 escaped raw strings

AsJson::size_hint() returned the bounds of the unescaped characters, but every
escaped character yields two or six characters.
---
 src/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index ca71cc7..ac10d95 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -887,7 +887,12 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (min, max) = self.chars.size_hint();
+        match self.state {
+            EscapeState::AlreadyEscaped => (min, max),
+            // Each remaining character may expand to an escape sequence.
+            _ => (min, None),
+        }
     }
 }
 
-- 
2.43.0

