From 9bb67d5bc551748012e40952a3699865ef1741c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 01/24] fix: trim exactly one leading newline (LF or CRLF) of
 multi-line strings

---
 crates/tombi-toml-text/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..506ead6 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -75,23 +75,22 @@ pub fn try_from_multi_line_basic_string(
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
     parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_newline(&value[3..value.len() - 3]),
         toml_version,
         true,
     )
 }
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
-    parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        true,
-    )
+    parse_literal_string(trim_first_newline(&value[3..value.len() - 3]), true)
+}
+
+/// A newline immediately following the opening delimiter of a multi-line string is trimmed.
+fn trim_first_newline(value: &str) -> &str {
+    value
+        .strip_prefix("\r\n")
+        .or_else(|| value.strip_prefix('\n'))
+        .unwrap_or(value)
 }
 
 pub fn parse_basic_string(
-- 
2.43.0


From 624614227460c6bf8f604bc6b2405871e5964ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 02/24] fix: reject a sign inside \u, \U and \x escapes

---
 crates/tombi-toml-text/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 506ead6..316fd65 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -145,7 +145,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'u'
                             unicode_buf.clear();
                             for _ in 0..4 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -165,7 +167,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'U'
                             unicode_buf.clear();
                             for _ in 0..8 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -190,7 +194,9 @@ pub fn parse_basic_string(
 
                             unicode_buf.clear();
                             for _ in 0..2 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
-- 
2.43.0


From 607b1dfbe9ff285239536a49046a74e9bb1f0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 03/24] fix: line ending backslash trims only TOML whitespace
 and only in multi-line strings

---
 crates/tombi-toml-text/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 316fd65..e613af7 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -213,20 +213,25 @@ pub fn parse_basic_string(
                                 return Err(ParseError::InvalidUnicodeEscapeSequence);
                             }
                         }
-                        c if c.is_whitespace() => {
-                            // Skip newline characters
-                            let mut has_whitespace = c == '\n';
-
-                            chars.next();
+                        ' ' | '\t' | '\r' | '\n' => {
+                            // Line ending backslash: trim up to the next non-whitespace character.
+                            let mut has_newline = false;
                             while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
-                                    has_whitespace = has_whitespace || c == '\n';
-                                    chars.next();
-                                } else {
-                                    break;
+                                match c {
+                                    ' ' | '\t' => {}
+                                    '\n' => has_newline = true,
+                                    '\r' => {
+                                        chars.next();
+                                        if chars.peek() != Some(&'\n') {
+                                            return Err(ParseError::InvalidLineBreak);
+                                        }
+                                        has_newline = true;
+                                    }
+                                    _ => break,
                                 }
+                                chars.next();
                             }
-                            if !has_whitespace {
+                            if !is_multi_line || !has_newline {
                                 return Err(ParseError::InvalidWhitespaceEscapeSequence);
                             }
                         }
-- 
2.43.0


From fb656aaccda601a4ad436bb9ab4887f938590e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 04/24] fix: escape control characters with sequences every
 TOML version decodes

---
 crates/tombi-toml-text/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index e613af7..82f5775 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -298,15 +298,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
-- 
2.43.0


From b7c02dc2b141876b7a9f1f4d9b98224c0b0aa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 05/24] fix: fall back to an escaped string when the requested
 kind cannot hold the value

---
 crates/tombi-toml-text/src/lib.rs | 37 ++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 82f5775..ad7737f 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -330,15 +330,46 @@ fn is_display_bare_key(value: &str) -> bool {
 }
 
 pub fn to_literal_string(value: &str) -> String {
-    format!("'{value}'")
+    // Literal strings have no escapes.
+    if value
+        .chars()
+        .any(|c| c == '\'' || (c.is_control() && c != '\t'))
+    {
+        return to_basic_string(value);
+    }
+    let mut result = String::with_capacity(value.len() + 2);
+    result.push('\'');
+    result.push_str(value);
+    result.push('\'');
+    result
 }
 
 pub fn to_multi_line_basic_string(value: &str) -> String {
-    format!("\"\"\"\n{value}\"\"\"")
+    if value
+        .chars()
+        .any(|c| c == '"' || c == '\\' || (c.is_control() && c != '\t' && c != '\n'))
+    {
+        return to_basic_string(value);
+    }
+    let mut result = String::with_capacity(value.len() + 7);
+    result.push_str("\"\"\"\n");
+    result.push_str(value);
+    result.push_str("\"\"\"");
+    result
 }
 
 pub fn to_multi_line_literal_string(value: &str) -> String {
-    format!("'''\n{value}'''")
+    if value
+        .chars()
+        .any(|c| c == '\'' || (c.is_control() && c != '\t' && c != '\n'))
+    {
+        return to_basic_string(value);
+    }
+    let mut result = String::with_capacity(value.len() + 7);
+    result.push_str("'''\n");
+    result.push_str(value);
+    result.push_str("'''");
+    result
 }
 
 #[cfg(test)]
-- 
2.43.0


From a37458b3a386071ff4449ea30a9065ef7b89a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 06/24] fix: an escaped backslash before the closing quotes of
 a multi-line basic string does not escape them

---
 crates/tombi-lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..42f8d48 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -422,7 +422,7 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    was_quote = !was_quote;
                 }
                 _ => {
                     was_quote = false;
-- 
2.43.0


From 0845cadb91e57c4177e8047fef56ff1352a869fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 07/24] fix: number patterns take only the digits and
 underscores they name

---
 crates/tombi-lexer/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 42f8d48..04b3802 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -21,11 +21,11 @@ macro_rules! regex {
 }
 
 regex!(
-    static REGEX_INTEGER_BIN = r"^0b[0|1](:?_?[0|1])*$";
-    static REGEX_INTEGER_OCT = r"^0o[0-7](:?_?[0-7])*$";
-    static REGEX_INTEGER_HEX = r"^0x[0-9A-Fa-f](:?_?[0-9A-Fa-f])*$";
-    static REGEX_INTEGER_DEC = r"^(:?[1-9](:?_?[0-9])*|0)$";
-    static REGEX_FLOAT = r"^[0-9_]+(:?(:?\.[0-9_]+)?[eE][+-]?[0-9_]+|\.[0-9_]+)$";
+    static REGEX_INTEGER_BIN = r"^0b[01](?:_?[01])*$";
+    static REGEX_INTEGER_OCT = r"^0o[0-7](?:_?[0-7])*$";
+    static REGEX_INTEGER_HEX = r"^0x[0-9A-Fa-f](?:_?[0-9A-Fa-f])*$";
+    static REGEX_INTEGER_DEC = r"^(?:[1-9](?:_?[0-9])*|0)$";
+    static REGEX_FLOAT = r"^[0-9_]+(?:(?:\.[0-9_]+)?[eE][+-]?[0-9_]+|\.[0-9_]+)$";
     static REGEX_IS_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}";
     static REGEX_OFFSET_DATE_TIME =
         r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})$";
-- 
2.43.0


From 30f7adfd254b0208364d2a8b58a2c1950f2b8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 08/24] fix: a float key after leading blanks keeps the blanks
 and consumes its token

---
 crates/tombi-parser/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..c6e63a4 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -225,6 +225,9 @@ impl<'t> Parser<'t> {
         let parts: Vec<&str> = text.split('.').collect();
         debug_assert!(parts.len() == 2);
 
+        let index = self.nth_index(0);
+        self.tokens.extend(&self.input_tokens[self.pos..index]);
+
         let key1 = {
             let m = self.start();
 
@@ -305,7 +308,7 @@ impl<'t> Parser<'t> {
 
             m.complete(self, token.kind())
         }
-        self.pos += 1;
+        self.pos = index + 1;
     }
 
     fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
-- 
2.43.0


From 2302fdac27785ebbedeefd57f6ed3251258664b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 09/24] fix: accept an upper-case exponent after a zero integer
 part

---
 crates/tombi-ast/src/support/literal/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-ast/src/support/literal/float.rs b/crates/tombi-ast/src/support/literal/float.rs
index 744c7a8..e6d29ad 100644
--- a/crates/tombi-ast/src/support/literal/float.rs
+++ b/crates/tombi-ast/src/support/literal/float.rs
@@ -27,7 +27,7 @@ pub fn try_from_float(value: &str) -> Result<f64, self::ParseError> {
     let int_slice = if value.contains('.') {
         value.split('.').next().unwrap()
     } else {
-        value.split('e').next().unwrap()
+        value.split(['e', 'E']).next().unwrap()
     };
 
     let int_number = if int_slice.starts_with("+") || int_slice.starts_with("-") {
-- 
2.43.0


From 0211323e1cd8d963495f9685df90c9bb934c5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 10/24] fix: reject a fraction of a second without seconds

---
 crates/tombi-document-tree/src/support/chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-document-tree/src/support/chrono.rs b/crates/tombi-document-tree/src/support/chrono.rs
index 702f307..f8450a8 100644
--- a/crates/tombi-document-tree/src/support/chrono.rs
+++ b/crates/tombi-document-tree/src/support/chrono.rs
@@ -159,7 +159,7 @@ fn make_datetime_str(value: &str, toml_version: TomlVersion) -> Result<String, P
     for (i, c) in value.char_indices() {
         if i == DATE_SIZE && matches!(c, 'T' | 't') {
             datetime_str.push(' ');
-        } else if i == DATE_TIME_WITHOUT_SECONDS_SIZE && c != ':' {
+        } else if i == DATE_TIME_WITHOUT_SECONDS_SIZE && !matches!(c, ':' | '.') {
             // NOTE: Support optional seconds.
             //       See more infomation: https://github.com/toml-lang/toml/issues/671
             if toml_version == TomlVersion::V1_0_0 {
-- 
2.43.0


From 1d49ad5ad568822f8d7c1aac8a1f7d21b27dee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 11/24] fix: convert chrono offsets to minutes and keep the
 fraction of a second

---
 .../tombi-date-time/src/offset_date_time.rs   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-date-time/src/offset_date_time.rs b/crates/tombi-date-time/src/offset_date_time.rs
index 1c17ecf..8fbb1ce 100644
--- a/crates/tombi-date-time/src/offset_date_time.rs
+++ b/crates/tombi-date-time/src/offset_date_time.rs
@@ -109,17 +109,22 @@ impl From<chrono::DateTime<chrono::FixedOffset>> for OffsetDateTime {
         use chrono::Datelike;
         use chrono::Timelike;
 
-        Self::from_ymd_hms(
-            value.year() as u16,
-            value.month() as u8,
-            value.day() as u8,
-            value.hour() as u8,
-            value.minute() as u8,
-            value.second() as u8,
-            crate::TimeZoneOffset::Custom {
-                minutes: value.offset().local_minus_utc() as i16,
+        Self {
+            date: crate::private::Date {
+                year: value.year() as u16,
+                month: value.month() as u8,
+                day: value.day() as u8,
+            },
+            time: crate::private::Time {
+                hour: value.hour() as u8,
+                minute: value.minute() as u8,
+                second: value.second() as u8,
+                nanosecond: value.nanosecond(),
             },
-        )
+            offset: crate::TimeZoneOffset::Custom {
+                minutes: (value.offset().local_minus_utc() / 60) as i16,
+            },
+        }
     }
 }
 
-- 
2.43.0


From 510f638bf7c2e7c2093c8b3bb00634e8583d8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 12/24] fix: version sort tells numbers beyond usize apart

---
 crates/tombi-version-sort/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-version-sort/src/lib.rs b/crates/tombi-version-sort/src/lib.rs
index 110a299..2b4bc52 100644
--- a/crates/tombi-version-sort/src/lib.rs
+++ b/crates/tombi-version-sort/src/lib.rs
@@ -41,7 +41,8 @@ impl<'a> VersionChunkIter<'a> {
         };
 
         let zeros = source.chars().take_while(|c| *c == '0').count();
-        let value = source.parse::<usize>().ok()?;
+        // A value that does not fit is told apart by its digits.
+        let value = source.parse::<usize>().unwrap_or(usize::MAX);
 
         Some(VersionChunk::Number {
             value,
@@ -172,6 +173,11 @@ enum MoreLeadingZeros {
     Equal,
 }
 
+/// Compare two numbers written without leading zeros.
+fn cmp_digits(a: &str, b: &str) -> std::cmp::Ordering {
+    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
+}
+
 /// Compare two identifiers based on the version sorting algorithm described in [the style guide]
 ///
 /// [the style guide]: https://doc.rust-lang.org/nightly/style-guide/#sorting
@@ -219,14 +225,17 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
                     VersionChunk::Number {
                         value: va,
                         zeros: lza,
-                        ..
+                        source: sa,
                     },
                     VersionChunk::Number {
                         value: vb,
                         zeros: lzb,
-                        ..
+                        source: sb,
                     },
-                ) => match va.cmp(&vb) {
+                ) => match va
+                    .cmp(&vb)
+                    .then_with(|| cmp_digits(&sa[lza..], &sb[lzb..]))
+                {
                     std::cmp::Ordering::Equal => {
                         if lza == lzb {
                             continue;
-- 
2.43.0


From f3b3f2ac1fcf84ba75000819d1a1431b32ee2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 13/24] fix: indentation deeper than 255 columns no longer
 overflows

---
 crates/tombi-formatter/src/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 21b03cc..0e2dec6 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -15,7 +15,7 @@ use crate::{
 
 pub struct Formatter<'a> {
     toml_version: TomlVersion,
-    indent_depth: u8,
+    indent_depth: usize,
     skip_indent: bool,
     skip_comment: bool,
     single_line_mode: bool,
@@ -385,10 +385,10 @@ impl<'a> Formatter<'a> {
     }
 
     #[inline]
-    fn indent(&self, depth: u8) -> String {
+    fn indent(&self, depth: usize) -> String {
         match self.definitions.indent_style {
-            IndentStyle::Space => " ".repeat((self.definitions.indent_width * depth) as usize),
-            IndentStyle::Tab => "\t".repeat(depth as usize),
+            IndentStyle::Space => " ".repeat(usize::from(self.definitions.indent_width) * depth),
+            IndentStyle::Tab => "\t".repeat(depth),
         }
     }
 
-- 
2.43.0


From 286e6d348226195cfe297455173965c5936563b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 14/24] fix: align equals signs by the keys as they are written

---
 crates/tombi-formatter/src/format.rs     |  2 +-
 crates/tombi-formatter/src/format/key.rs | 34 +++++++++++++-----------
 crates/tombi-formatter/src/formatter.rs  |  3 ++-
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/crates/tombi-formatter/src/format.rs b/crates/tombi-formatter/src/format.rs
index c4bfcfc..3dc3a28 100644
--- a/crates/tombi-formatter/src/format.rs
+++ b/crates/tombi-formatter/src/format.rs
@@ -1,6 +1,6 @@
 mod array_of_table;
 mod comment;
-mod key;
+pub(crate) mod key;
 mod key_value;
 mod root;
 mod table;
diff --git a/crates/tombi-formatter/src/format/key.rs b/crates/tombi-formatter/src/format/key.rs
index 82cd569..73703a2 100644
--- a/crates/tombi-formatter/src/format/key.rs
+++ b/crates/tombi-formatter/src/format/key.rs
@@ -2,6 +2,7 @@ use std::fmt::Write;
 
 use itertools::Itertools;
 use tombi_ast::AstNode;
+use tombi_config::StringQuoteStyle;
 
 use crate::{
     Format,
@@ -9,24 +10,27 @@ use crate::{
     types::{AlignmentWidth, WithAlignmentHint},
 };
 
+/// The keys as they are written to the output, without any alignment.
+pub(crate) fn keys_to_string(keys: &tombi_ast::Keys, quote_style: StringQuoteStyle) -> String {
+    keys.keys()
+        .map(|key| match key {
+            tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
+            tombi_ast::Key::BasicString(it) => {
+                format_basic_string_quote_style(it.token().unwrap().text(), quote_style)
+                    .into_owned()
+            }
+            tombi_ast::Key::LiteralString(it) => {
+                format_literal_string_quote_style(it.token().unwrap().text(), quote_style)
+                    .into_owned()
+            }
+        })
+        .join(".")
+}
+
 impl Format for WithAlignmentHint<&tombi_ast::Keys> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         let keys = self.value;
-        let mut keys_string = keys
-            .keys()
-            .map(|key| match key {
-                tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
-                tombi_ast::Key::BasicString(it) => {
-                    format_basic_string_quote_style(it.token().unwrap().text(), f.key_quote_style())
-                        .into_owned()
-                }
-                tombi_ast::Key::LiteralString(it) => format_literal_string_quote_style(
-                    it.token().unwrap().text(),
-                    f.key_quote_style(),
-                )
-                .into_owned(),
-            })
-            .join(".");
+        let mut keys_string = keys_to_string(keys, f.key_quote_style());
 
         if let Some(keys_alignment_width) = self.equal_alignment_width {
             keys_string.push_str(&" ".repeat(
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 0e2dec6..3ed7853 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -10,6 +10,7 @@ use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{
     Format,
+    format::key::keys_to_string,
     types::{AlignmentWidth, WithAlignmentHint},
 };
 
@@ -362,7 +363,7 @@ impl<'a> Formatter<'a> {
         if self.definitions.key_value_equal_alignment {
             key_values
                 .filter_map(|key_value| key_value.keys())
-                .map(|keys| AlignmentWidth::new(&keys.to_string()))
+                .map(|keys| AlignmentWidth::new(&keys_to_string(&keys, self.key_quote_style())))
                 .max()
         } else {
             None
-- 
2.43.0


From a134e98562818e319f6261a3bf65dd09daf17670 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 15/24] fix: find the enclosing arrays of tables of a header
 across unrelated sections

A header below an array of tables was resolved with the array headers directly
before it only, so a document that continues a table after another array of
tables was rejected, and an inner array that belongs to an earlier element of
its parent array was taken for one of the current element.
---
 crates/tombi-ast/src/impls/array_of_table.rs  | 28 +++--------------
 crates/tombi-ast/src/impls/table.rs           | 29 +++--------------
 crates/tombi-ast/src/lib.rs                   |  2 +-
 crates/tombi-ast/src/support/node.rs          | 31 +++++++++++++++++++
 crates/tombi-document-tree/src/value/table.rs |  2 +-
 5 files changed, 43 insertions(+), 49 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..e617b6e 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -2,7 +2,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use tombi_toml_version::TomlVersion;
 
 use crate::{
-    ArrayOfTable, AstChildren, AstNode, DanglingCommentGroupOr, KeyValueGroup, TableOrArrayOfTable,
+    AstChildren, AstNode, DanglingCommentGroupOr, KeyValueGroup, TableOrArrayOfTable,
     TombiValueCommentDirective, support,
 };
 
@@ -151,27 +151,9 @@ impl crate::ArrayOfTable {
     pub fn parrent_array_of_tables_keys(
         &self,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
-        support::node::prev_siblings_nodes(self)
-            .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(TomlVersion::latest()),
-                        b.try_to_raw_text(TomlVersion::latest()),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
-            .filter(|keys| {
-                self.header()
-                    .map(|header_keys| header_keys.keys().starts_with(keys))
-                    .unwrap_or_default()
-            })
+        support::node::parent_array_of_tables_keys(
+            self.header(),
+            support::node::prev_siblings_nodes(self),
+        )
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..c03a03c 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -2,7 +2,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use tombi_toml_version::TomlVersion;
 
 use crate::{
-    ArrayOfTable, AstChildren, AstNode, DanglingCommentGroupOr, KeyValueGroup, TableOrArrayOfTable,
+    AstChildren, AstNode, DanglingCommentGroupOr, KeyValueGroup, TableOrArrayOfTable,
     TombiValueCommentDirective, support,
 };
 
@@ -150,29 +150,10 @@ impl crate::Table {
     #[inline]
     pub fn parent_array_of_tables_keys(
         &self,
-        toml_version: TomlVersion,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
-        support::node::prev_siblings_nodes(self)
-            .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(toml_version),
-                        b.try_to_raw_text(toml_version),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
-            .filter(|keys| {
-                self.header()
-                    .map(|header_keys| header_keys.keys().starts_with(keys))
-                    .unwrap_or_default()
-            })
+        support::node::parent_array_of_tables_keys(
+            self.header(),
+            support::node::prev_siblings_nodes(self),
+        )
     }
 }
diff --git a/crates/tombi-ast/src/lib.rs b/crates/tombi-ast/src/lib.rs
index 912b8dd..86d247f 100644
--- a/crates/tombi-ast/src/lib.rs
+++ b/crates/tombi-ast/src/lib.rs
@@ -101,7 +101,7 @@ pub trait GetHeaderAccessors {
 impl GetHeaderAccessors for crate::Table {
     fn get_header_accessors(&self, toml_version: TomlVersion) -> Option<Vec<Accessor>> {
         let array_of_tables_keys = self
-            .parent_array_of_tables_keys(toml_version)
+            .parent_array_of_tables_keys()
             .map(|keys| {
                 keys.into_iter()
                     .map(|key| key.to_raw_text(toml_version))
diff --git a/crates/tombi-ast/src/support/node.rs b/crates/tombi-ast/src/support/node.rs
index e7746b4..79a7053 100644
--- a/crates/tombi-ast/src/support/node.rs
+++ b/crates/tombi-ast/src/support/node.rs
@@ -33,3 +33,34 @@ pub fn next_siblings_nodes<N: AstNode, T: AstNode>(node: &N) -> impl Iterator<It
         .siblings(tombi_syntax::Direction::Next)
         .filter_map(T::cast)
 }
+
+/// The keys of the arrays of tables whose current element contains the section.
+///
+/// `prev_array_of_tables` are the arrays of tables before the section, from the closest backwards.
+pub fn parent_array_of_tables_keys(
+    header: Option<crate::Keys>,
+    prev_array_of_tables: impl Iterator<Item = crate::ArrayOfTable>,
+) -> impl Iterator<Item = AstChildren<crate::Key>> {
+    let mut parents = Vec::new();
+
+    if let Some(header) = header {
+        let header_keys = header.keys();
+        let mut parent_depth = usize::MAX;
+
+        for array_of_table in prev_array_of_tables {
+            let Some(keys) = array_of_table.header().map(|header| header.keys()) else {
+                continue;
+            };
+
+            // Once an outer array of tables has been passed, the inner ones before it
+            // belong to one of its earlier elements.
+            let depth = keys.clone().count();
+            if depth <= parent_depth && header_keys.starts_with(&keys) {
+                parent_depth = depth;
+                parents.push(keys);
+            }
+        }
+    }
+
+    parents.into_iter()
+}
diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..710abd2 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -597,7 +597,7 @@ impl IntoDocumentTreeAndErrors<crate::Table> for tombi_ast::Table {
         }
 
         let array_of_table_keys = get_array_of_tables_keys(
-            self.parent_array_of_tables_keys(toml_version),
+            self.parent_array_of_tables_keys(),
             toml_version,
             &mut errors,
         );
-- 
2.43.0


From f4e39a77c557a598071a29645934363c45ef33b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 16/24] fix: reject dotted keys and inline tables that extend a
 table of another section

A table with a section of its own could be extended by dotted keys of its
parent's section, and a super table created by a header could be replaced by
an inline table: both are invalid TOML.
---
 crates/tombi-document-tree/src/value/table.rs | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index 710abd2..af83274 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -267,10 +267,10 @@ impl Table {
             }
             (Table | InlineTable { .. } | KeyValue, Table | InlineTable { .. })
             | (InlineTable { .. }, ParentTable | ParentKey | KeyValue)
-            | (ParentTable, ParentKey) => {
+            | (ParentTable, InlineTable { .. } | ParentKey) => {
                 is_conflict = true;
             }
-            (ParentTable, Table | InlineTable { .. }) => {
+            (ParentTable, Table) => {
                 self.kind = other.kind;
             }
             (ParentKey, Table | InlineTable { .. }) => {
@@ -298,7 +298,7 @@ impl Table {
                     let value1 = entry.get_mut();
                     match (value1, value2) {
                         (Value::Table(table1), Value::Table(table2)) => {
-                            if let Err(errs) = table1.merge(table2) {
+                            if let Err(errs) = table1.merge_same_key(table2) {
                                 errors.extend(errs);
                             };
                         }
@@ -331,6 +331,30 @@ impl Table {
         }
     }
 
+    /// Merges the tables that two sections give for the same key.
+    ///
+    /// The key values of a section are merged into its own table with [`Self::merge`],
+    /// but dotted keys cannot extend a table that has a section of its own.
+    ///
+    /// ```toml
+    /// [a.b]
+    ///
+    /// [a]
+    /// b.c = 1  # <- Conflict
+    /// ```
+    fn merge_same_key(&mut self, other: Self) -> Result<(), Vec<crate::Error>> {
+        if let (TableKind::Table, TableKind::ParentKey | TableKind::KeyValue) =
+            (self.kind, other.kind)
+        {
+            return Err(vec![crate::Error::ConflictTable {
+                range1: self.symbol_range,
+                range2: other.symbol_range,
+            }]);
+        }
+
+        self.merge(other)
+    }
+
     pub(crate) fn insert(mut self, key: Key, value: Value) -> Result<Self, Vec<crate::Error>> {
         let mut errors = Vec::new();
 
@@ -339,7 +363,7 @@ impl Table {
                 let existing_value = entry.get_mut();
                 match (existing_value, value) {
                     (Value::Table(table1), Value::Table(table2)) => {
-                        if let Err(errs) = table1.merge(table2) {
+                        if let Err(errs) = table1.merge_same_key(table2) {
                             errors.extend(errs);
                         }
                     }
-- 
2.43.0


From 22d176177e919929ab29078011e5bccee25c74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 17/24] fix: keep integer multipleOf 0 and -1 from panicking in
 validation

---
 crates/tombi-validator/src/validate/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-validator/src/validate/integer.rs b/crates/tombi-validator/src/validate/integer.rs
index ca2ef31..ef7d13b 100644
--- a/crates/tombi-validator/src/validate/integer.rs
+++ b/crates/tombi-validator/src/validate/integer.rs
@@ -364,7 +364,7 @@ async fn validate_integer_schema(
     }
 
     if let Some(multiple_of) = &integer_schema.multiple_of
-        && value % *multiple_of != 0
+        && value.checked_rem(*multiple_of).unwrap_or_default() != 0
     {
         assertion_failed = true;
         let level = lint_rules
-- 
2.43.0


From 8555ea636565196751d4a61d85aa5b925ccc226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 18/24] fix: keep float-written bounds, enum and const of
 integer schemas

---
 .../src/schema/integer_schema.rs              | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..4d09abd 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -43,17 +43,17 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
-            multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
+            minimum: object.get("minimum").and_then(|v| bound(v, f64::ceil)),
+            maximum: object.get("maximum").and_then(|v| bound(v, f64::floor)),
+            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| bound(v, f64::floor)),
+            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| bound(v, f64::ceil)),
+            multiple_of: object.get("multipleOf").and_then(integer),
             r#enum: object
                 .get("enum")
                 .and_then(|v| v.as_array())
-                .map(|v| v.items.iter().filter_map(|v| v.as_i64()).collect()),
+                .map(|v| v.items.iter().filter_map(integer).collect()),
             default: object.get("default").and_then(|v| v.as_i64()),
-            const_value: object.get("const").and_then(|v| v.as_i64()),
+            const_value: object.get("const").and_then(integer),
             examples: object
                 .get("examples")
                 .and_then(|v| v.as_array())
@@ -75,3 +75,20 @@ impl IntegerSchema {
         self.deprecation.as_ref().map(|_| true)
     }
 }
+
+/// JSON Schema does not distinguish `1.0` from `1`.
+fn integer(value: &tombi_json::ValueNode) -> Option<i64> {
+    value.as_i64().or_else(|| {
+        value
+            .as_f64()
+            .filter(|v| v.fract() == 0.0 && (i64::MIN as f64..i64::MAX as f64).contains(v))
+            .map(|v| v as i64)
+    })
+}
+
+/// The integer that bounds the same integers as the (possibly fractional) number does.
+fn bound(value: &tombi_json::ValueNode, round: fn(f64) -> f64) -> Option<i64> {
+    value
+        .as_i64()
+        .or_else(|| value.as_f64().map(|v| round(v) as i64))
+}
-- 
2.43.0


From 74db84d5d96e6d597c81ec157e166b27e068e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:29 +0000
Subject: [PATCH 19/24] fix: keep assertions that failed next to oneOf

---
 crates/tombi-validator/src/validate/one_of.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tombi-validator/src/validate/one_of.rs b/crates/tombi-validator/src/validate/one_of.rs
index e3cb4d3..444dfa9 100644
--- a/crates/tombi-validator/src/validate/one_of.rs
+++ b/crates/tombi-validator/src/validate/one_of.rs
@@ -161,6 +161,7 @@ where
                         });
                     }
                     Err(mut error) if !error.assertion_failed => {
+                        error.assertion_failed = adjacent_assertion_failed;
                         error.prepend_diagnostics(total_diagnostics);
                         error
                             .local_evaluated_locations
@@ -221,6 +222,7 @@ where
                 );
             }
 
+            error.assertion_failed |= adjacent_assertion_failed;
             error.prepend_diagnostics(total_diagnostics);
             error
                 .local_evaluated_locations
-- 
2.43.0


From 449155b8eedec7ffe8639ded632cbcae1192153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 20/24] fix: keep assertions that failed next to anyOf

---
 crates/tombi-validator/src/validate/any_of.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-validator/src/validate/any_of.rs b/crates/tombi-validator/src/validate/any_of.rs
index df4bc85..1535102 100644
--- a/crates/tombi-validator/src/validate/any_of.rs
+++ b/crates/tombi-validator/src/validate/any_of.rs
@@ -158,9 +158,13 @@ where
                     local_evaluated_locations: matched_evaluated_locations,
                 })
             }
-        } else if !total_error.assertion_failed && total_diagnostics.is_empty() {
+        } else if !total_error.assertion_failed
+            && !adjacent_assertion_failed
+            && total_diagnostics.is_empty()
+        {
             Ok(matched_evaluated_locations)
         } else {
+            total_error.assertion_failed |= adjacent_assertion_failed;
             total_error.prepend_diagnostics(total_diagnostics);
             total_error
                 .local_evaluated_locations
-- 
2.43.0


From 07802af36061240967deab66b0597e173e8d0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:06 +0000
Subject: [PATCH 21/24] fix: place comment directives by their text, not by
 byte counts

The schema directive's range assumed an unindented comment, and the ranges of the
schema URI and of the value directive counted bytes as columns.
---
 crates/tombi-ast/src/impls/comment.rs | 37 +++++++++------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/tombi-ast/src/impls/comment.rs b/crates/tombi-ast/src/impls/comment.rs
index 240f354..726ab53 100644
--- a/crates/tombi-ast/src/impls/comment.rs
+++ b/crates/tombi-ast/src/impls/comment.rs
@@ -15,26 +15,20 @@ impl Comment {
     ) -> Option<SchemaDocumentCommentDirective> {
         let comment_text = self.to_string();
         if let Some(mut uri_text) = comment_text.strip_prefix("#:schema ") {
-            let original_len = uri_text.len();
-            uri_text = uri_text.trim_start_matches(' ');
-            let space_count = (original_len - uri_text.len()) as u32;
-            uri_text = uri_text.trim();
+            uri_text = uri_text.trim_start();
+            let uri_offset = comment_text.len() - uri_text.len();
+            uri_text = uri_text.trim_end();
 
             let comment_range = self.syntax().range();
             let directive_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 1),
-                tombi_text::Position::new(
-                    comment_range.end.line,
-                    8, // "#:schema" length
-                ),
-            );
-            let uri_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 9 + space_count),
+                tombi_text::Position::new(comment_range.start.line, comment_range.start.column + 1),
                 tombi_text::Position::new(
-                    comment_range.end.line,
-                    9 + space_count + uri_text.len() as tombi_text::Column,
+                    comment_range.start.line,
+                    comment_range.start.column + 8, // "#:schema" length
                 ),
             );
+            let uri_start = comment_range.start.add_text(&comment_text[..uri_offset]);
+            let uri_range = tombi_text::Range::new(uri_start, uri_start.add_text(uri_text));
 
             if let Some(source_path) = source_path
                 && is_relative_file_schema_uri_text(uri_text)
@@ -124,17 +118,10 @@ impl Comment {
         if !content_with_directive.starts_with("tombi:") {
             return None;
         }
-        let prefix_len = (comment_text.len() - content_with_directive.len()) as u32;
-        let directive_range = tombi_text::Range::new(
-            tombi_text::Position::new(
-                comment_range.start.line,
-                comment_range.start.column + prefix_len,
-            ),
-            tombi_text::Position::new(
-                comment_range.start.line,
-                comment_range.start.column + prefix_len + 6,
-            ),
-        );
+        let prefix_len = comment_text.len() - content_with_directive.len();
+        let directive_start = comment_range.start.add_text(&comment_text[..prefix_len]);
+        let directive_range =
+            tombi_text::Range::new(directive_start, directive_start.add_text("tombi:"));
         let content = &content_with_directive[6..];
         let content_range = tombi_text::Range::new(
             tombi_text::Position::new(comment_range.start.line, directive_range.end.column),
-- 
2.43.0


From b824981585010781703bf15d313bfeec5bca85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:25 +0000
Subject: [PATCH 22/24] fix: a comment followed by a blank line before a comma
 no longer makes an array or inline table invalid

---
 .../tombi-parser/src/parse/key_value_with_comma_group.rs | 5 +++--
 crates/tombi-parser/src/parse/value_with_comma_group.rs  | 5 +++--
 crates/tombi-parser/src/support/comment.rs               | 9 +++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
index d15936d..b07673d 100644
--- a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
@@ -3,7 +3,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comments, peek_leading_comments},
     token_set::{TS_INLINE_TABLE_END, TS_KEY_FIRST},
 };
 
@@ -19,7 +19,8 @@ impl Parse for tombi_ast::KeyValueWithCommaGroup {
             tombi_ast::KeyValue::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            let n_comments = peek_comments(p);
+            if p.nth_at(n_comments, T![,]) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
                 break;
diff --git a/crates/tombi-parser/src/parse/value_with_comma_group.rs b/crates/tombi-parser/src/parse/value_with_comma_group.rs
index 5b0bb33..9815941 100644
--- a/crates/tombi-parser/src/parse/value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/value_with_comma_group.rs
@@ -3,7 +3,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comments, peek_leading_comments},
     token_set::{TS_ARRAY_END, TS_VALUE_FIRST},
 };
 
@@ -19,7 +19,8 @@ impl Parse for tombi_ast::ValueWithCommaGroup {
             tombi_ast::Value::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            let n_comments = peek_comments(p);
+            if p.nth_at(n_comments, T![,]) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_ARRAY_END) {
                 break;
diff --git a/crates/tombi-parser/src/support/comment.rs b/crates/tombi-parser/src/support/comment.rs
index 963176d..249508f 100644
--- a/crates/tombi-parser/src/support/comment.rs
+++ b/crates/tombi-parser/src/support/comment.rs
@@ -16,6 +16,15 @@ pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
     }
 }
 
+/// The number of comments and line breaks ahead, whatever blank lines stand between them.
+pub fn peek_comments(p: &mut crate::parser::Parser<'_>) -> usize {
+    let mut n = 0;
+    while p.nth_at_ts(n, TS_LEADING_COMMENTS_KINDS) {
+        n += 1;
+    }
+    n
+}
+
 #[inline]
 pub fn leading_comments(p: &mut crate::parser::Parser<'_>) {
     while p.eat_ts(TS_LEADING_COMMENTS_KINDS) {}
-- 
2.43.0


From e0fe2ed898bdaefe3deaf2809fb738bf4a6fa80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:09 +0000
Subject: [PATCH 23/24] fix: string formats date, time and date-time no longer
 take a sign for a digit (2024-+1-01, +1:00:00Z)

---
 .../src/validate/format/date.rs               |  8 +++---
 .../src/validate/format/time.rs               | 25 +++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/tombi-validator/src/validate/format/date.rs b/crates/tombi-validator/src/validate/format/date.rs
index 8cd0a22..6337e3d 100644
--- a/crates/tombi-validator/src/validate/format/date.rs
+++ b/crates/tombi-validator/src/validate/format/date.rs
@@ -1,3 +1,5 @@
+use super::time::parse_digits;
+
 pub fn validate_format(value: &str) -> bool {
     // RFC 3339 full-date: YYYY-MM-DD
     if value.len() != 10 || !value.is_ascii() {
@@ -9,13 +11,13 @@ pub fn validate_format(value: &str) -> bool {
         return false;
     }
 
-    let Ok(year) = value[0..4].parse::<u32>() else {
+    let Some(year) = parse_digits(&value[0..4]) else {
         return false;
     };
-    let Ok(month) = value[5..7].parse::<u32>() else {
+    let Some(month) = parse_digits(&value[5..7]) else {
         return false;
     };
-    let Ok(day) = value[8..10].parse::<u32>() else {
+    let Some(day) = parse_digits(&value[8..10]) else {
         return false;
     };
 
diff --git a/crates/tombi-validator/src/validate/format/time.rs b/crates/tombi-validator/src/validate/format/time.rs
index 19ff713..f374f37 100644
--- a/crates/tombi-validator/src/validate/format/time.rs
+++ b/crates/tombi-validator/src/validate/format/time.rs
@@ -8,6 +8,15 @@ pub fn validate_format(value: &str) -> bool {
     validate_timezone(rest)
 }
 
+/// Parse a number written in digits alone (`str::parse` also takes a leading `+`).
+pub(crate) fn parse_digits(value: &str) -> Option<u32> {
+    if value.bytes().all(|b| b.is_ascii_digit()) {
+        value.parse::<u32>().ok()
+    } else {
+        None
+    }
+}
+
 /// Parse the time components (HH:MM:SS[.frac]) and return the remaining string.
 /// Returns `None` if the input is not a valid time component.
 pub(crate) fn parse_time_components(value: &str) -> Option<&str> {
@@ -20,15 +29,9 @@ pub(crate) fn parse_time_components(value: &str) -> Option<&str> {
         return None;
     }
 
-    let Ok(hour) = value[0..2].parse::<u32>() else {
-        return None;
-    };
-    let Ok(minute) = value[3..5].parse::<u32>() else {
-        return None;
-    };
-    let Ok(second) = value[6..8].parse::<u32>() else {
-        return None;
-    };
+    let hour = parse_digits(&value[0..2])?;
+    let minute = parse_digits(&value[3..5])?;
+    let second = parse_digits(&value[6..8])?;
 
     if hour > 23 || minute > 59 || second > 60 {
         // 60 seconds allowed for leap second
@@ -62,8 +65,8 @@ pub(crate) fn validate_timezone(rest: &str) -> bool {
         s if (s.starts_with('+') || s.starts_with('-')) && s.len() == 6 => {
             let tz = &s[1..];
             tz.as_bytes()[2] == b':'
-                && tz[0..2].parse::<u32>().is_ok_and(|h| h <= 23)
-                && tz[3..5].parse::<u32>().is_ok_and(|m| m <= 59)
+                && parse_digits(&tz[0..2]).is_some_and(|h| h <= 23)
+                && parse_digits(&tz[3..5]).is_some_and(|m| m <= 59)
         }
         _ => false,
     }
-- 
2.43.0


From 395ad53df051da15f75f524398c8a3ff1da09525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:09 +0000
Subject: [PATCH 24/24] fix: string format uuid is the hyphenated form only

---
 crates/tombi-validator/src/validate/format/uuid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-validator/src/validate/format/uuid.rs b/crates/tombi-validator/src/validate/format/uuid.rs
index d293020..98c450f 100644
--- a/crates/tombi-validator/src/validate/format/uuid.rs
+++ b/crates/tombi-validator/src/validate/format/uuid.rs
@@ -1,3 +1,4 @@
 pub fn validate_format(value: &str) -> bool {
-    uuid::Uuid::parse_str(value).is_ok()
+    // Only the hyphenated form of RFC 4122, which alone is this long.
+    value.len() == 36 && uuid::Uuid::parse_str(value).is_ok()
 }
-- 
2.43.0

