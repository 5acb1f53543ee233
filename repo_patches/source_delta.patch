From 7d513fd765482267277cf7b6d0affe9b331618aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 1/7] fix: decode surrogate pairs beyond U+1FFFF to the right
 character

The 0x10000 base must be added, not or-ed, because the high ten bits of the
pair can already carry into bit 16. Previously U+20000 decoded as U+10000.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..af9c349 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From 0b48ab18653792927bd02e1b9667268e82a530b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 2/7] fix: write \u escapes of control characters most
 significant digit first

U+0001 was written as \u1000 and U+001F as the invalid \up100.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index af9c349..b4873fa 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From 3754abf4b7ceac00c4e2c651a559d2ef322a6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 3/7] fix: count both UTF-8 bytes of U+0080..=U+00FF when
 analyzing raw strings

The lengths reported for strings converted from Rust text containing such
characters were too small, which also made equal strings compare unequal.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index b4873fa..6819b37 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From f0a4fb69f8743169604b91a07fb59ca77d8383aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 4/7] fix: compare raw and parsed strings by decoded length

The quick length check compared encoded lengths, so "\u000a" and "\/\n"
were unequal to the raw strings they decode to.
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6819b37..dceebb3 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if self.decoded_len() == other.decoded_len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if self.decoded_len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From 74b03b5bd48c4efa1a8a5cf66600481266f5fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 5/7] fix: report a correct upper bound from AsJson::size_hint

Escaped characters expand to up to six characters, so the remaining number of
source characters is not an upper bound.
---
 src/string.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index dceebb3..dd53cb1 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -887,7 +887,28 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        // The rest of an escape sequence that has already been started.
+        let pending = match &self.state {
+            EscapeState::AlreadyEscaped => return (lower, upper),
+            EscapeState::None => 0,
+            EscapeState::Single(_) => 1,
+            EscapeState::Unicode {
+                current_nibble: None,
+                ..
+            } => 5,
+            EscapeState::Unicode {
+                current_nibble: Some(nibble),
+                ..
+            } => 4 - usize::from(*nibble),
+        };
+        // Each remaining character is written as between 1 and 6 characters.
+        (
+            lower.saturating_add(pending),
+            upper
+                .and_then(|upper| upper.checked_mul(6))
+                .and_then(|upper| upper.checked_add(pending)),
+        )
     }
 }
 
-- 
2.43.0


From 2b84d092370208a111cf5cf7ac79c682606e29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 6/7] fix: show one closing brace in the message of
 UnclosedObject

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 3807845..77eaca3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -357,7 +357,7 @@ where
                 f.write_str("invalid hexadecimal in unicode escape sequence")
             }
             ErrorKind::InvalidEscape => f.write_str("invalid escaped character"),
-            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}}')"),
+            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}')"),
             ErrorKind::UnclosedArray => f.write_str("expected end of array (']')"),
             ErrorKind::UnclosedString => f.write_str("expected end of string ('\"')"),
             ErrorKind::ExpectedString => f.write_str("expected a string"),
-- 
2.43.0


From 37e46debc20e4a81222f1317043f456955a7e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 7/7] fix: show the unexpected character in error messages, not
 its number

---
 src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 77eaca3..9eb95fa 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -341,7 +341,13 @@ where
             ErrorKind::ExpectedCommaOrEndOfObject => f.write_str("expected comma or end of object"),
             ErrorKind::ExpectedCommaOrEndOfArray => f.write_str("expected comma or end of array"),
             ErrorKind::IllegalTrailingComma => f.write_str("trailing commas are not allowed"),
-            ErrorKind::Unexpected(ch) => write!(f, "unexpected character: '{ch}'"),
+            ErrorKind::Unexpected(ch) => {
+                write!(
+                    f,
+                    "unexpected character: '{}'",
+                    core::ascii::escape_default(*ch)
+                )
+            }
             ErrorKind::TrailingNonWhitespace => {
                 f.write_str("trailing non-whitespace data was encountered")
             }
-- 
2.43.0

