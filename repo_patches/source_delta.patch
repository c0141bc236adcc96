From 0742d1964b14dbb9b214f8d201420697f0de26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 01/62] fix: trim exactly one line break after the opening
 delimiter of a multi-line string

---
 crates/tombi-toml-text/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..07f4f59 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -75,23 +75,22 @@ pub fn try_from_multi_line_basic_string(
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
     parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_line_break(&value[3..value.len() - 3]),
         toml_version,
         true,
     )
 }
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
-    parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        true,
-    )
+    parse_literal_string(trim_first_line_break(&value[3..value.len() - 3]), true)
+}
+
+/// Only the line break immediately following the opening delimiter is trimmed.
+fn trim_first_line_break(value: &str) -> &str {
+    value
+        .strip_prefix("\r\n")
+        .or_else(|| value.strip_prefix('\n'))
+        .unwrap_or(value)
 }
 
 pub fn parse_basic_string(
-- 
2.43.0


From b7219a8305cc6fbd2eed93536d47a6c3183373b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 02/62] fix: accept an escaped backslash right before the
 closing delimiter of a multi-line basic string

---
 crates/tombi-lexer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..68370db 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -422,7 +422,8 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    // An escaped backslash does not escape the next character.
+                    was_quote = !was_quote;
                 }
                 _ => {
                     was_quote = false;
-- 
2.43.0


From b1a70987d749900f6276e499c3e0ba4573dd4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/62] fix: find the parent array of tables even when other
 headers come in between

---
 crates/tombi-ast/src/impls/array_of_table.rs | 15 ---------------
 crates/tombi-ast/src/impls/table.rs          | 17 +----------------
 2 files changed, 1 insertion(+), 31 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..4bbefa9 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -153,21 +153,6 @@ impl crate::ArrayOfTable {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(TomlVersion::latest()),
-                        b.try_to_raw_text(TomlVersion::latest()),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..b11b35e 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -150,25 +150,10 @@ impl crate::Table {
     #[inline]
     pub fn parent_array_of_tables_keys(
         &self,
-        toml_version: TomlVersion,
+        _toml_version: TomlVersion,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(toml_version),
-                        b.try_to_raw_text(toml_version),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
-- 
2.43.0


From 6bc4bd7639eb6da0abc636e7f9ff1df3924f9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 04/62] fix: report control characters in dangling comments
 between items

---
 crates/tombi-document-tree/src/root.rs        | 3 +++
 crates/tombi-document-tree/src/value/array.rs | 3 +++
 crates/tombi-document-tree/src/value/table.rs | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/crates/tombi-document-tree/src/root.rs b/crates/tombi-document-tree/src/root.rs
index 4307cca..0e7f5e5 100644
--- a/crates/tombi-document-tree/src/root.rs
+++ b/crates/tombi-document-tree/src/root.rs
@@ -80,6 +80,9 @@ impl IntoDocumentTreeAndErrors<crate::DocumentTree> for tombi_ast::Root {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
diff --git a/crates/tombi-document-tree/src/value/array.rs b/crates/tombi-document-tree/src/value/array.rs
index 69eede8..58976af 100644
--- a/crates/tombi-document-tree/src/value/array.rs
+++ b/crates/tombi-document-tree/src/value/array.rs
@@ -336,6 +336,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::Array {
                 }
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..935c66b 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -584,6 +584,9 @@ impl IntoDocumentTreeAndErrors<crate::Table> for tombi_ast::Table {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -713,6 +716,9 @@ impl IntoDocumentTreeAndErrors<Table> for tombi_ast::ArrayOfTable {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -964,6 +970,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::InlineTable {
             match group {
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
-- 
2.43.0


From f51df7ce5264e73bdadd8d9bc0b5d302233d56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 05/62] fix: keep the whitespace in front of a float-like key

---
 crates/tombi-parser/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..81d9e56 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -212,6 +212,11 @@ impl<'t> Parser<'t> {
 
     pub(crate) fn bump_float_key(&mut self) {
         debug_assert!(self.nth(0) == FLOAT);
+        // Keep the trivia in front of the key.
+        let index = self.nth_index(0);
+        self.tokens.extend(&self.input_tokens[self.pos..index]);
+        self.pos = index;
+
         let token = self.nth_token(0);
         let text = &self.source[token.span()];
 
-- 
2.43.0


From 4f3515f0349c25359dd3b2a0d2f11d8d5be405c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 06/62] fix: accept blank lines between a comment and the comma
 that follows it

---
 .../src/parse/key_value_with_comma_group.rs           |  5 +++--
 .../tombi-parser/src/parse/value_with_comma_group.rs  |  5 +++--
 crates/tombi-parser/src/support/comment.rs            | 11 +++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
index d15936d..06b2855 100644
--- a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
@@ -3,7 +3,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma_leading_comments, peek_leading_comments},
     token_set::{TS_INLINE_TABLE_END, TS_KEY_FIRST},
 };
 
@@ -18,8 +18,9 @@ impl Parse for tombi_ast::KeyValueWithCommaGroup {
 
             tombi_ast::KeyValue::parse(p);
 
+            let comma_n = peek_comma_leading_comments(p);
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if p.nth_at(comma_n, T![,]) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
                 break;
diff --git a/crates/tombi-parser/src/parse/value_with_comma_group.rs b/crates/tombi-parser/src/parse/value_with_comma_group.rs
index 5b0bb33..cef594a 100644
--- a/crates/tombi-parser/src/parse/value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/value_with_comma_group.rs
@@ -3,7 +3,7 @@ use tombi_syntax::{SyntaxKind::*, T};
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma_leading_comments, peek_leading_comments},
     token_set::{TS_ARRAY_END, TS_VALUE_FIRST},
 };
 
@@ -18,8 +18,9 @@ impl Parse for tombi_ast::ValueWithCommaGroup {
 
             tombi_ast::Value::parse(p);
 
+            let comma_n = peek_comma_leading_comments(p);
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if p.nth_at(comma_n, T![,]) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_ARRAY_END) {
                 break;
diff --git a/crates/tombi-parser/src/support/comment.rs b/crates/tombi-parser/src/support/comment.rs
index 963176d..94161a9 100644
--- a/crates/tombi-parser/src/support/comment.rs
+++ b/crates/tombi-parser/src/support/comment.rs
@@ -16,6 +16,17 @@ pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
     }
 }
 
+/// Count the comments and line breaks in front of a comma.
+///
+/// Unlike leading comments of an item, blank lines may appear in between.
+pub fn peek_comma_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
+    let mut n = 0;
+    while p.nth_at(n, LINE_BREAK) || p.nth_at(n, COMMENT) {
+        n += 1;
+    }
+    n
+}
+
 #[inline]
 pub fn leading_comments(p: &mut crate::parser::Parser<'_>) {
     while p.eat_ts(TS_LEADING_COMMENTS_KINDS) {}
-- 
2.43.0


From 3f6f3dec45712adf52175fdcd4270f6012096940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 07/62] fix: accept a zero integer part before an upper-case
 exponent

---
 crates/tombi-ast/src/support/literal/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-ast/src/support/literal/float.rs b/crates/tombi-ast/src/support/literal/float.rs
index 744c7a8..e6d29ad 100644
--- a/crates/tombi-ast/src/support/literal/float.rs
+++ b/crates/tombi-ast/src/support/literal/float.rs
@@ -27,7 +27,7 @@ pub fn try_from_float(value: &str) -> Result<f64, self::ParseError> {
     let int_slice = if value.contains('.') {
         value.split('.').next().unwrap()
     } else {
-        value.split('e').next().unwrap()
+        value.split(['e', 'E']).next().unwrap()
     };
 
     let int_number = if int_slice.starts_with("+") || int_slice.starts_with("-") {
-- 
2.43.0


From c6aeb5759448ab0d5a882b11a7a710bff485d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 08/62] fix: reject a sign in a unicode escape sequence

---
 crates/tombi-toml-text/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 07f4f59..1b8a4d2 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -151,7 +151,7 @@ pub fn parse_basic_string(
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
                                 }
                             }
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
+                            if let Some(code_point) = parse_hex_digits(&unicode_buf) {
                                 if let Some(unicode_char) = std::char::from_u32(code_point) {
                                     output.push(unicode_char);
                                 } else {
@@ -171,7 +171,7 @@ pub fn parse_basic_string(
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
                                 }
                             }
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
+                            if let Some(code_point) = parse_hex_digits(&unicode_buf) {
                                 if let Some(unicode_char) = std::char::from_u32(code_point) {
                                     output.push(unicode_char);
                                 } else {
@@ -197,7 +197,7 @@ pub fn parse_basic_string(
                                 }
                             }
 
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
+                            if let Some(code_point) = parse_hex_digits(&unicode_buf) {
                                 if let Some(unicode_char) = std::char::from_u32(code_point) {
                                     output.push(unicode_char);
                                 } else {
@@ -253,6 +253,15 @@ pub fn parse_basic_string(
     Ok(output)
 }
 
+/// `u32::from_str_radix` also accepts a sign, which is not a hex digit.
+fn parse_hex_digits(value: &str) -> Option<u32> {
+    if value.chars().all(|c| c.is_ascii_hexdigit()) {
+        u32::from_str_radix(value, 16).ok()
+    } else {
+        None
+    }
+}
+
 pub fn parse_literal_string(input: &str, is_multi_line: bool) -> Result<String, ParseError> {
     let mut output = String::with_capacity(input.len());
     let mut chars = input.chars().peekable();
-- 
2.43.0


From dff304523402246249625f37eb385af9480fba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 09/62] fix: only TOML whitespace and line breaks may follow a
 line ending backslash

---
 crates/tombi-toml-text/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 1b8a4d2..6ff3392 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -207,17 +207,26 @@ pub fn parse_basic_string(
                                 return Err(ParseError::InvalidUnicodeEscapeSequence);
                             }
                         }
-                        c if c.is_whitespace() => {
+                        ' ' | '\t' | '\r' | '\n' => {
                             // Skip newline characters
-                            let mut has_whitespace = c == '\n';
+                            let mut has_whitespace = false;
 
-                            chars.next();
                             while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
-                                    has_whitespace = has_whitespace || c == '\n';
-                                    chars.next();
-                                } else {
-                                    break;
+                                match c {
+                                    ' ' | '\t' => {
+                                        chars.next();
+                                    }
+                                    '\n' => {
+                                        has_whitespace = true;
+                                        chars.next();
+                                    }
+                                    '\r' => {
+                                        chars.next();
+                                        if chars.peek() != Some(&'\n') {
+                                            return Err(ParseError::InvalidLineBreak);
+                                        }
+                                    }
+                                    _ => break,
                                 }
                             }
                             if !has_whitespace {
-- 
2.43.0


From 2a7cc66f5b5d5e749e83bc5947e487011a8643f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 10/62] fix: a fraction of a second needs the seconds

---
 crates/tombi-lexer/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 68370db..ab4df69 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -28,10 +28,10 @@ regex!(
     static REGEX_FLOAT = r"^[0-9_]+(:?(:?\.[0-9_]+)?[eE][+-]?[0-9_]+|\.[0-9_]+)$";
     static REGEX_IS_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}";
     static REGEX_OFFSET_DATE_TIME =
-        r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})$";
-    static REGEX_LOCAL_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?$";
+        r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})$";
+    static REGEX_LOCAL_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?$";
     static REGEX_LOCAL_DATE = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}$";
-    static REGEX_LOCAL_TIME = r"^[0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?$";
+    static REGEX_LOCAL_TIME = r"^[0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?$";
 );
 
 pub fn lex(source: &str) -> Lexed {
-- 
2.43.0


From d809d6bf70039dd38655758a28879193e2050dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 11/62] fix: align equals signs by the keys as they are written

---
 crates/tombi-formatter/src/format/key.rs | 38 ++++++++++++++----------
 crates/tombi-formatter/src/formatter.rs  |  2 +-
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/crates/tombi-formatter/src/format/key.rs b/crates/tombi-formatter/src/format/key.rs
index 82cd569..8484a81 100644
--- a/crates/tombi-formatter/src/format/key.rs
+++ b/crates/tombi-formatter/src/format/key.rs
@@ -11,22 +11,7 @@ use crate::{
 
 impl Format for WithAlignmentHint<&tombi_ast::Keys> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
-        let keys = self.value;
-        let mut keys_string = keys
-            .keys()
-            .map(|key| match key {
-                tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
-                tombi_ast::Key::BasicString(it) => {
-                    format_basic_string_quote_style(it.token().unwrap().text(), f.key_quote_style())
-                        .into_owned()
-                }
-                tombi_ast::Key::LiteralString(it) => format_literal_string_quote_style(
-                    it.token().unwrap().text(),
-                    f.key_quote_style(),
-                )
-                .into_owned(),
-            })
-            .join(".");
+        let mut keys_string = f.keys_to_string(self.value);
 
         if let Some(keys_alignment_width) = self.equal_alignment_width {
             keys_string.push_str(&" ".repeat(
@@ -38,6 +23,27 @@ impl Format for WithAlignmentHint<&tombi_ast::Keys> {
     }
 }
 
+impl crate::Formatter<'_> {
+    /// The text of the keys as it will be written.
+    pub(crate) fn keys_to_string(&self, keys: &tombi_ast::Keys) -> String {
+        keys.keys()
+            .map(|key| match key {
+                tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
+                tombi_ast::Key::BasicString(it) => format_basic_string_quote_style(
+                    it.token().unwrap().text(),
+                    self.key_quote_style(),
+                )
+                .into_owned(),
+                tombi_ast::Key::LiteralString(it) => format_literal_string_quote_style(
+                    it.token().unwrap().text(),
+                    self.key_quote_style(),
+                )
+                .into_owned(),
+            })
+            .join(".")
+    }
+}
+
 impl Format for tombi_ast::BareKey {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         write!(f, "{}", self.syntax().text())
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 21b03cc..b771798 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -362,7 +362,7 @@ impl<'a> Formatter<'a> {
         if self.definitions.key_value_equal_alignment {
             key_values
                 .filter_map(|key_value| key_value.keys())
-                .map(|keys| AlignmentWidth::new(&keys.to_string()))
+                .map(|keys| AlignmentWidth::new(&self.keys_to_string(&keys)))
                 .max()
         } else {
             None
-- 
2.43.0


From dcb1d5a2f94791473442dd7dbc44430128e425fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 12/62] fix: keep a blank line after a dangling comment group
 when table-blank-lines is 0

---
 crates/tombi-formatter/src/format/root.rs | 35 ++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/format/root.rs b/crates/tombi-formatter/src/format/root.rs
index 2f70072..0b3975a 100644
--- a/crates/tombi-formatter/src/format/root.rs
+++ b/crates/tombi-formatter/src/format/root.rs
@@ -14,6 +14,11 @@ impl Format for tombi_ast::Root {
         let dangling_comment_group_is_empty = dangling_comment_groups.is_empty();
         let key_value_groups_is_empty = key_value_groups.is_empty();
 
+        let ends_with_dangling_comment = matches!(
+            key_value_groups.last(),
+            Some(DanglingCommentGroupOr::DanglingCommentGroup(_))
+        );
+
         let groups = itertools::chain!(
             dangling_comment_groups
                 .into_iter()
@@ -35,7 +40,7 @@ impl Format for tombi_ast::Root {
                         .min(f.group_blank_lines_limit()),
                 )?;
             } else {
-                f.write_blank_lines(f.table_blank_lines())?;
+                f.write_blank_lines(f.table_blank_lines().max(u8::from(ends_with_dangling_comment)))?;
             }
         }
         table_or_array_of_tables.format(f)?;
@@ -51,6 +56,10 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
             if i != 0 {
                 f.write_line_ending()?;
             }
+            // Without a blank line, the comments would become the leading comments of this table.
+            let table_blank_lines = f.table_blank_lines().max(u8::from(
+                i != 0 && ends_with_dangling_comment(&self[i - 1]),
+            ));
             match table_or_array_of_table {
                 tombi_ast::TableOrArrayOfTable::Table(table) => {
                     let header_keys = table.header().unwrap().keys();
@@ -74,7 +83,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -106,7 +115,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || array_of_table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -121,7 +130,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || pre_header_keys.same_as(&header_keys)
                                 || has_dangling_comments
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -143,6 +152,24 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
     }
 }
 
+fn ends_with_dangling_comment(table: &tombi_ast::TableOrArrayOfTable) -> bool {
+    let (last_group, has_dangling_comments) = match table {
+        tombi_ast::TableOrArrayOfTable::Table(table) => (
+            table.key_value_groups().last(),
+            table.dangling_comment_groups().next().is_some(),
+        ),
+        tombi_ast::TableOrArrayOfTable::ArrayOfTable(array_of_table) => (
+            array_of_table.key_value_groups().last(),
+            array_of_table.dangling_comment_groups().next().is_some(),
+        ),
+    };
+
+    match last_group {
+        Some(group) => matches!(group, DanglingCommentGroupOr::DanglingCommentGroup(_)),
+        None => has_dangling_comments,
+    }
+}
+
 #[derive(Debug)]
 enum Header {
     Root,
-- 
2.43.0


From 7a56d4cad43bc329695ada3ea8a9200cf2ec5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 13/62] fix: compute wide and deep indents without overflow

---
 crates/tombi-formatter/src/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index b771798..4004a7d 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -15,7 +15,7 @@ use crate::{
 
 pub struct Formatter<'a> {
     toml_version: TomlVersion,
-    indent_depth: u8,
+    indent_depth: usize,
     skip_indent: bool,
     skip_comment: bool,
     single_line_mode: bool,
@@ -385,10 +385,10 @@ impl<'a> Formatter<'a> {
     }
 
     #[inline]
-    fn indent(&self, depth: u8) -> String {
+    fn indent(&self, depth: usize) -> String {
         match self.definitions.indent_style {
-            IndentStyle::Space => " ".repeat((self.definitions.indent_width * depth) as usize),
-            IndentStyle::Tab => "\t".repeat(depth as usize),
+            IndentStyle::Space => " ".repeat(usize::from(self.definitions.indent_width) * depth),
+            IndentStyle::Tab => "\t".repeat(depth),
         }
     }
 
-- 
2.43.0


From 727396cb7b8bef25628b599351d89caf4fd9afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 14/62] fix: format nested arrays and inline tables without
 exponential work

---
 crates/tombi-formatter/src/format/value/array.rs      |  7 ++++++-
 .../tombi-formatter/src/format/value/inline_table.rs  |  7 ++++++-
 crates/tombi-formatter/src/formatter.rs               | 11 +++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index 3eb2b30..d969cf0 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -61,7 +61,12 @@ pub(crate) fn exceeds_line_width(
                 length += 1; // ","
                 length += f.array_comma_space().len();
             }
-            length += f.format_to_string(&value)?.graphemes(true).count();
+            // Nested values are known to fit on a single line here,
+            // so there is no need to decide it again for every level.
+            length += f
+                .format_to_single_line_string(&value)?
+                .graphemes(true)
+                .count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index 053390f..1415e1e 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -68,7 +68,12 @@ pub(crate) fn exceeds_line_width(
                 length += 1; // ","
                 length += f.inline_table_comma_space().len();
             }
-            length += f.format_to_string(&key_value)?.graphemes(true).count();
+            // Nested values are known to fit on a single line here,
+            // so there is no need to decide it again for every level.
+            length += f
+                .format_to_single_line_string(&key_value)?
+                .graphemes(true)
+                .count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 4004a7d..8daea5b 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -199,6 +199,17 @@ impl<'a> Formatter<'a> {
         Ok(result)
     }
 
+    /// Format a node on a single line and return the result as a string
+    pub(crate) fn format_to_single_line_string<T: Format>(
+        &mut self,
+        node: &T,
+    ) -> Result<String, std::fmt::Error> {
+        let old_mode = std::mem::replace(&mut self.single_line_mode, true);
+        let result = self.format_to_string(node);
+        self.single_line_mode = old_mode;
+        result
+    }
+
     pub(crate) fn format_tombi_comment_directive_content(
         &mut self,
         content: &str,
-- 
2.43.0


From 602250d43bdf73c6e987589413515d9e198c2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 15/62] fix: a new element of an array of tables hides the
 nested arrays of tables of the previous ones

---
 crates/tombi-ast/src/impls/array_of_table.rs | 11 +++++++++++
 crates/tombi-ast/src/impls/table.rs          | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bbefa9..d83e7ba 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -158,5 +158,16 @@ impl crate::ArrayOfTable {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter({
+                // Going backwards, what is deeper than an array of tables already passed
+                // belongs to one of its previous elements.
+                let mut depth = usize::MAX;
+                move |keys| {
+                    let count = keys.clone().count();
+                    let found = count <= depth;
+                    depth = depth.min(count);
+                    found
+                }
+            })
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index b11b35e..fa29e58 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -159,5 +159,16 @@ impl crate::Table {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter({
+                // Going backwards, what is deeper than an array of tables already passed
+                // belongs to one of its previous elements.
+                let mut depth = usize::MAX;
+                move |keys| {
+                    let count = keys.clone().count();
+                    let found = count <= depth;
+                    depth = depth.min(count);
+                    found
+                }
+            })
     }
 }
-- 
2.43.0


From 9fc93398fdf92b0f26a131256e1fd5b1ab57683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 16/62] fix: report errors of writing the formatted file

---
 rust/tombi-cli/src/app/command/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index f396d31..167dc5a 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -508,7 +508,11 @@ impl FormatFile {
     async fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
         match self {
             Self::Stdin { .. } => tokio::io::stdout().write_all(buf).await,
-            Self::File { file, .. } => file.write_all(buf).await,
+            Self::File { file, .. } => {
+                file.write_all(buf).await?;
+                // The write happens in the background; only flushing reports its errors.
+                file.flush().await
+            }
         }
     }
 }
-- 
2.43.0


From 1b5563d7292c40006ab7ab1e6189d9ad9a3937f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 17/62] fix: handle a file given more than once only once

---
 crates/tombi-glob/src/file_search.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index 6fe3485..019bf64 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -103,6 +103,16 @@ impl FileSearch {
                     }
                 }
 
+                // The inputs may overlap. Handle each file only once,
+                // otherwise it would be read while it is being rewritten.
+                let mut found_paths = std::collections::HashSet::new();
+                matched_paths.retain(|entry| match entry {
+                    FileSearchEntry::Found(path) => {
+                        found_paths.insert(path.canonicalize().unwrap_or_else(|_| path.clone()))
+                    }
+                    _ => true,
+                });
+
                 FileSearch::Files(matched_paths)
             }
         }
-- 
2.43.0


From 6057922c1bd8cecc700f37310ceaa5f23b82fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 18/62] fix: do not panic on an invalid user or system config
 file

---
 rust/serde_tombi/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/serde_tombi/src/config.rs b/rust/serde_tombi/src/config.rs
index 29bf56d..95428ad 100644
--- a/rust/serde_tombi/src/config.rs
+++ b/rust/serde_tombi/src/config.rs
@@ -181,7 +181,7 @@ pub fn load_with_path_and_level(
                 return Ok((config, Some(user_config_path), config_level));
             }
             None => {
-                unreachable!("{CONFIG_TOML_FILENAME} should always be parsed successfully.");
+                log::debug!("ignore invalid {CONFIG_TOML_FILENAME} at {:?}", user_config_path);
             }
         }
     }
-- 
2.43.0


From 4d7b469ef23514aa3872ff44c31d9da8343ba653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 19/62] fix: pass stdin through when formatting is disabled for
 it

---
 rust/tombi-cli/src/app/command/format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index 167dc5a..41f3bd4 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -164,6 +164,14 @@ where
                     config_path.as_deref(),
                 ) else {
                     log::debug!("formatting disabled for stdin by override");
+                    if !args.check
+                        && let Err(error) =
+                            std::io::copy(&mut std::io::stdin(), &mut std::io::stdout())
+                    {
+                        log::error!("failed to copy stdin to stdout: {}", error);
+                        summary.error_num += 1;
+                        return Ok(summary);
+                    }
                     summary.not_needed_num += 1;
                     return Ok(summary);
                 };
-- 
2.43.0


From bfe5aec1e7bcbeffd6bed822eba535f48a6edf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 20/62] fix: apply the exclude patterns to files given relative
 to another directory

---
 crates/tombi-glob/src/file_search.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index 019bf64..74c61dc 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -149,8 +149,14 @@ pub async fn search_pattern_matched_paths<P: AsRef<std::path::Path>>(
 }
 
 fn is_excluded(path: &Path, root: &Path, exclude_patterns: Option<&[GlobPattern]>) -> bool {
-    exclude_patterns
-        .is_some_and(|patterns| crate::pattern::path_matches_patterns(path, root, patterns))
+    let Some(patterns) = exclude_patterns else {
+        return false;
+    };
+    // The path is relative to the current directory, which may not be the root.
+    let path = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+    let root = root.canonicalize().unwrap_or_else(|_| root.to_path_buf());
+
+    crate::pattern::path_matches_patterns(&path, &root, patterns)
 }
 
 fn is_glob_pattern(path_str: &str) -> bool {
-- 
2.43.0


From 001bdb604f5bf53fa6cb6adf14fed19961eb73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 21/62] fix: let the rules of an override win over the base
 rules

---
 crates/tombi-config/src/format.rs | 64 +++++++++++++++----------------
 crates/tombi-config/src/lint.rs   | 10 ++---
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/tombi-config/src/format.rs b/crates/tombi-config/src/format.rs
index e054e26..d1def14 100644
--- a/crates/tombi-config/src/format.rs
+++ b/crates/tombi-config/src/format.rs
@@ -305,50 +305,50 @@ pub struct FormatRules {
 impl FormatRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            array_bracket_space_width: self
+            array_bracket_space_width: override_rules
                 .array_bracket_space_width
-                .or(override_rules.array_bracket_space_width),
-            array_comma_space_width: self
+                .or(self.array_bracket_space_width),
+            array_comma_space_width: override_rules
                 .array_comma_space_width
-                .or(override_rules.array_comma_space_width),
-            comment_style: self.comment_style.or(override_rules.comment_style),
-            date_time_delimiter: self
+                .or(self.array_comma_space_width),
+            comment_style: override_rules.comment_style.or(self.comment_style),
+            date_time_delimiter: override_rules
                 .date_time_delimiter
-                .or(override_rules.date_time_delimiter),
-            group_blank_lines_limit: self
+                .or(self.date_time_delimiter),
+            group_blank_lines_limit: override_rules
                 .group_blank_lines_limit
-                .or(override_rules.group_blank_lines_limit),
-            indent_style: self.indent_style.or(override_rules.indent_style),
-            indent_sub_tables: self.indent_sub_tables.or(override_rules.indent_sub_tables),
-            indent_table_key_value_pairs: self
+                .or(self.group_blank_lines_limit),
+            indent_style: override_rules.indent_style.or(self.indent_style),
+            indent_sub_tables: override_rules.indent_sub_tables.or(self.indent_sub_tables),
+            indent_table_key_value_pairs: override_rules
                 .indent_table_key_value_pairs
-                .or(override_rules.indent_table_key_value_pairs),
-            indent_width: self.indent_width.or(override_rules.indent_width),
-            inline_table_brace_space_width: self
+                .or(self.indent_table_key_value_pairs),
+            indent_width: override_rules.indent_width.or(self.indent_width),
+            inline_table_brace_space_width: override_rules
                 .inline_table_brace_space_width
-                .or(override_rules.inline_table_brace_space_width),
-            inline_table_comma_space_width: self
+                .or(self.inline_table_brace_space_width),
+            inline_table_comma_space_width: override_rules
                 .inline_table_comma_space_width
-                .or(override_rules.inline_table_comma_space_width),
-            key_value_equals_sign_alignment: self
+                .or(self.inline_table_comma_space_width),
+            key_value_equals_sign_alignment: override_rules
                 .key_value_equals_sign_alignment
-                .or(override_rules.key_value_equals_sign_alignment),
-            key_quote_style: self.key_quote_style.or(override_rules.key_quote_style),
-            string_quote_style: self
+                .or(self.key_value_equals_sign_alignment),
+            key_quote_style: override_rules.key_quote_style.or(self.key_quote_style),
+            string_quote_style: override_rules
                 .string_quote_style
-                .or(override_rules.string_quote_style),
-            trailing_comment_alignment: self
+                .or(self.string_quote_style),
+            trailing_comment_alignment: override_rules
                 .trailing_comment_alignment
-                .or(override_rules.trailing_comment_alignment),
-            key_value_equals_sign_space_width: self
+                .or(self.trailing_comment_alignment),
+            key_value_equals_sign_space_width: override_rules
                 .key_value_equals_sign_space_width
-                .or(override_rules.key_value_equals_sign_space_width),
-            line_ending: self.line_ending.or(override_rules.line_ending),
-            line_width: self.line_width.or(override_rules.line_width),
-            table_blank_lines: self.table_blank_lines.or(override_rules.table_blank_lines),
-            trailing_comment_space_width: self
+                .or(self.key_value_equals_sign_space_width),
+            line_ending: override_rules.line_ending.or(self.line_ending),
+            line_width: override_rules.line_width.or(self.line_width),
+            table_blank_lines: override_rules.table_blank_lines.or(self.table_blank_lines),
+            trailing_comment_space_width: override_rules
                 .trailing_comment_space_width
-                .or(override_rules.trailing_comment_space_width),
+                .or(self.trailing_comment_space_width),
         }
     }
 }
diff --git a/crates/tombi-config/src/lint.rs b/crates/tombi-config/src/lint.rs
index 447d22c..9708852 100644
--- a/crates/tombi-config/src/lint.rs
+++ b/crates/tombi-config/src/lint.rs
@@ -75,13 +75,13 @@ pub struct LintRules {
 impl LintRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            key_empty: self.key_empty.or(override_rules.key_empty),
-            dotted_keys_out_of_order: self
+            key_empty: override_rules.key_empty.or(self.key_empty),
+            dotted_keys_out_of_order: override_rules
                 .dotted_keys_out_of_order
-                .or(override_rules.dotted_keys_out_of_order),
-            tables_out_of_order: self
+                .or(self.dotted_keys_out_of_order),
+            tables_out_of_order: override_rules
                 .tables_out_of_order
-                .or(override_rules.tables_out_of_order),
+                .or(self.tables_out_of_order),
         }
     }
 }
-- 
2.43.0


From 6dd3ee0d721f0fd9ccc15bf6028486e8131455d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 22/62] fix: do not use a comment directive with invalid values

---
 crates/tombi-validator/src/comment_directive/document.rs | 5 ++++-
 crates/tombi-validator/src/comment_directive/value.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-validator/src/comment_directive/document.rs b/crates/tombi-validator/src/comment_directive/document.rs
index c23746a..5651896 100644
--- a/crates/tombi-validator/src/comment_directive/document.rs
+++ b/crates/tombi-validator/src/comment_directive/document.rs
@@ -99,7 +99,10 @@ pub async fn get_tombi_document_comment_directive_and_diagnostics(
                         .into_iter()
                         .map(|diagnostic| into_directive_diagnostic(&diagnostic, content_range)),
                 );
-            } else if let Err(diagnostics) =
+                continue;
+            }
+
+            if let Err(diagnostics) =
                 crate::validate(document_tree.clone(), Some(&source_schema), &schema_context).await
             {
                 total_diagnostics.extend(
diff --git a/crates/tombi-validator/src/comment_directive/value.rs b/crates/tombi-validator/src/comment_directive/value.rs
index aa08029..15c1b0e 100644
--- a/crates/tombi-validator/src/comment_directive/value.rs
+++ b/crates/tombi-validator/src/comment_directive/value.rs
@@ -463,7 +463,10 @@ pub async fn get_comment_directive_document_tree_and_diagnostics<'a>(
                     .into_iter()
                     .map(|diagnostic| into_directive_diagnostic(&diagnostic, *content_range)),
             );
-        } else if let Err(diagnostics) =
+            continue;
+        }
+
+        if let Err(diagnostics) =
             crate::validate(document_tree.clone(), Some(&source_schema), &schema_context).await
         {
             total_diagnostics.extend(
-- 
2.43.0


From 066b188ed9123de72ad4461c9d5a1ff8aba299a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 23/62] fix: apply fractional bounds and multipleOf to integers

---
 .../src/schema/integer_schema.rs              | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..73183aa 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -21,6 +21,41 @@ pub struct IntegerSchema {
     pub not: Option<Box<NotSchema>>,
 }
 
+/// Reads a bound of an integer. A fractional bound is rounded to the integer
+/// that admits the same integers.
+fn integer_bound(
+    object: &tombi_json::ObjectNode,
+    keyword: &str,
+    round: fn(f64) -> f64,
+) -> Option<i64> {
+    let bound = object.get(keyword)?;
+    bound.as_i64().or_else(|| {
+        let bound = round(bound.as_f64()?);
+        (i64::MIN as f64 <= bound && bound < i64::MAX as f64).then_some(bound as i64)
+    })
+}
+
+/// Reads `multipleOf` of an integer. The integers that are multiples of a
+/// fraction in lowest terms are the multiples of its numerator.
+fn integer_multiple_of(object: &tombi_json::ObjectNode) -> Option<i64> {
+    let multiple_of = object.get("multipleOf")?;
+    if let Some(multiple_of) = multiple_of.as_i64() {
+        return (multiple_of > 0).then_some(multiple_of);
+    }
+    let multiple_of = multiple_of.as_f64().filter(|value| *value > 0.0)?;
+    let (numerator, denominator) = (0..=9)
+        .map(|exponent| 10_i64.pow(exponent))
+        .map(|denominator| (multiple_of * denominator as f64, denominator))
+        .find(|(numerator, _)| numerator.fract() == 0.0)
+        .filter(|(numerator, _)| *numerator < i64::MAX as f64)?;
+    let numerator = numerator as i64;
+    let (mut divisor, mut remainder) = (numerator, denominator);
+    while remainder != 0 {
+        (divisor, remainder) = (remainder, divisor % remainder);
+    }
+    Some(numerator / divisor)
+}
+
 impl IntegerSchema {
     pub fn new(
         object: &tombi_json::ObjectNode,
@@ -29,7 +64,7 @@ impl IntegerSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
@@ -43,11 +78,11 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
-            multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
+            minimum: integer_bound(object, "minimum", f64::ceil),
+            maximum: integer_bound(object, "maximum", f64::floor),
+            exclusive_minimum: integer_bound(object, "exclusiveMinimum", f64::floor),
+            exclusive_maximum: integer_bound(object, "exclusiveMaximum", f64::ceil),
+            multiple_of: integer_multiple_of(object),
             r#enum: object
                 .get("enum")
                 .and_then(|v| v.as_array())
-- 
2.43.0


From 8823a3e2e9c7a8918dcf65d6771d5cea67e95f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 24/62] fix: apply an if that stands alone to primitive values

---
 crates/tombi-schema-store/src/schema.rs       | 30 +++++++++++++++++++
 .../src/schema/boolean_schema.rs              |  2 +-
 .../src/schema/float_schema.rs                |  2 +-
 .../src/schema/local_date_schema.rs           |  2 +-
 .../src/schema/local_date_time_schema.rs      |  2 +-
 .../src/schema/local_time_schema.rs           |  2 +-
 .../src/schema/offset_date_time_schema.rs     |  2 +-
 .../src/schema/string_schema.rs               |  2 +-
 8 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema.rs b/crates/tombi-schema-store/src/schema.rs
index 188eb1a..03cc468 100644
--- a/crates/tombi-schema-store/src/schema.rs
+++ b/crates/tombi-schema-store/src/schema.rs
@@ -393,6 +393,36 @@ pub(crate) fn adjacent_applicators(
     (one_of, any_of, all_of, not)
 }
 
+/// Adjacent applicators of a view of a primitive type. `if` belongs to the
+/// applicator views, so an `if` that stands alone is carried by an `allOf` view
+/// without subschemas.
+pub(crate) fn primitive_adjacent_applicators(
+    object: &tombi_json::ObjectNode,
+    string_formats: Option<&[tombi_x_keyword::StringFormat]>,
+    dialect: Option<crate::JsonSchemaDialect>,
+    mut anchor_collector: Option<&mut AnchorCollector>,
+    mut dynamic_anchor_collector: Option<&mut DynamicAnchorCollector>,
+) -> AdjacentApplicators {
+    let (one_of, any_of, mut all_of, not) = adjacent_applicators(
+        object,
+        string_formats,
+        dialect,
+        anchor_collector.as_deref_mut(),
+        dynamic_anchor_collector.as_deref_mut(),
+    );
+    if object.get("if").is_some() && one_of.is_none() && any_of.is_none() && all_of.is_none() {
+        all_of = Some(Box::new(AllOfSchema::new(
+            object,
+            string_formats,
+            dialect,
+            anchor_collector,
+            dynamic_anchor_collector,
+        )));
+    }
+
+    (one_of, any_of, all_of, not)
+}
+
 pub(crate) fn update_named_anchors(
     object: &tombi_json::ObjectNode,
     referable: &Referable<SchemaView>,
diff --git a/crates/tombi-schema-store/src/schema/boolean_schema.rs b/crates/tombi-schema-store/src/schema/boolean_schema.rs
index 5aef935..d286b05 100644
--- a/crates/tombi-schema-store/src/schema/boolean_schema.rs
+++ b/crates/tombi-schema-store/src/schema/boolean_schema.rs
@@ -24,7 +24,7 @@ impl BooleanSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/float_schema.rs b/crates/tombi-schema-store/src/schema/float_schema.rs
index 3bdccc5..9264bf7 100644
--- a/crates/tombi-schema-store/src/schema/float_schema.rs
+++ b/crates/tombi-schema-store/src/schema/float_schema.rs
@@ -29,7 +29,7 @@ impl FloatSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_date_schema.rs b/crates/tombi-schema-store/src/schema/local_date_schema.rs
index a167f17..e3aba4f 100644
--- a/crates/tombi-schema-store/src/schema/local_date_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_date_schema.rs
@@ -24,7 +24,7 @@ impl LocalDateSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_date_time_schema.rs b/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
index 7bac6b2..3dedd10 100644
--- a/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
@@ -24,7 +24,7 @@ impl LocalDateTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_time_schema.rs b/crates/tombi-schema-store/src/schema/local_time_schema.rs
index 189ff86..81fbfcf 100644
--- a/crates/tombi-schema-store/src/schema/local_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_time_schema.rs
@@ -24,7 +24,7 @@ impl LocalTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs b/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
index f0a3958..558c130 100644
--- a/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
@@ -24,7 +24,7 @@ impl OffsetDateTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/string_schema.rs b/crates/tombi-schema-store/src/schema/string_schema.rs
index 4b0b0b2..a88ae79 100644
--- a/crates/tombi-schema-store/src/schema/string_schema.rs
+++ b/crates/tombi-schema-store/src/schema/string_schema.rs
@@ -34,7 +34,7 @@ impl StringSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::primitive_adjacent_applicators(
             object,
             string_formats,
             dialect,
-- 
2.43.0


From 0b1956c96e15332a927b194a676bd7ed31bd2dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 25/62] fix: apply all of several applicators side by side

---
 .../src/schema/referable_schema.rs            | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 042c6fc..44a8946 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -200,6 +200,45 @@ impl Referable<SchemaView> {
                         dynamic_anchor_collector.as_deref_mut(),
                     )
                 })
+            } else if ["oneOf", "anyOf", "allOf"]
+                .iter()
+                .filter(|keyword| object.get(keyword).is_some())
+                .count()
+                > 1
+            {
+                // Every one of the applicators has to hold.
+                let (one_of, any_of, all_of, _) = super::adjacent_applicators(
+                    object,
+                    string_formats,
+                    dialect,
+                    anchor_collector.as_deref_mut(),
+                    dynamic_anchor_collector.as_deref_mut(),
+                );
+                let one_of = one_of.map(|schema| SchemaView::OneOf(*schema));
+                let any_of = any_of.map(|schema| SchemaView::AnyOf(*schema));
+                let all_of = all_of.map(|schema| SchemaView::AllOf(*schema));
+                Some(SchemaView::AllOf(super::AllOfSchema {
+                    title: object
+                        .get("title")
+                        .and_then(|value| value.as_str().map(ToOwned::to_owned)),
+                    description: object
+                        .get("description")
+                        .and_then(|value| value.as_str().map(ToOwned::to_owned)),
+                    range: object.range,
+                    schemas: Arc::new(tokio::sync::RwLock::new(
+                        [one_of, any_of, all_of]
+                            .into_iter()
+                            .flatten()
+                            .map(|schema_view| Referable::Resolved {
+                                schema_uri: None,
+                                value: Arc::new(schema_view),
+                                semantic_schema: None,
+                            })
+                            .collect(),
+                    )),
+                    deprecation: Deprecation::new(object),
+                    ..Default::default()
+                }))
             } else if object.get("oneOf").is_some() {
                 Some(SchemaView::OneOf(super::OneOfSchema::new(
                     object,
-- 
2.43.0


From f4f60e6e0eaf0fa92a8e8e83bd7759936246989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 26/62] fix: only items of 2020-12 are evaluated by contains

---
 crates/tombi-schema-store/src/schema/array_schema.rs | 4 ++++
 crates/tombi-validator/src/validate/array.rs         | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/array_schema.rs b/crates/tombi-schema-store/src/schema/array_schema.rs
index 0fd9495..8394f34 100644
--- a/crates/tombi-schema-store/src/schema/array_schema.rs
+++ b/crates/tombi-schema-store/src/schema/array_schema.rs
@@ -26,6 +26,9 @@ pub struct ArraySchema {
     pub unevaluated_items: Option<bool>,
     pub unevaluated_items_schema: Option<SchemaItem>,
     pub contains: Option<SchemaItem>,
+    /// The items that match `contains` are evaluated items. This is not the case
+    /// before 2020-12.
+    pub contains_evaluates_items: bool,
     pub min_contains: Option<usize>,
     pub max_contains: Option<usize>,
     pub min_items: Option<usize>,
@@ -160,6 +163,7 @@ impl ArraySchema {
             } else {
                 None
             },
+            contains_evaluates_items: uses_prefix_items_semantics,
             contains: object.get("contains").and_then(|value| {
                 schema_item_from_schema_value(
                     value,
diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 0de6553..c647385 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -444,7 +444,7 @@ async fn validate_array(
         }
 
         for (index, matched) in contains_evaluated.iter().enumerate() {
-            if *matched {
+            if *matched && array_schema.contains_evaluates_items {
                 evaluated[index] = true;
             }
         }
-- 
2.43.0


From f5b67abe432f1f453a3ea67dafb34f2b75d89880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 27/62] fix: a dependency that does not apply evaluates no
 properties

---
 crates/tombi-validator/src/validate/table.rs | 21 +++++++-------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 88e135e..6f14457 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -1087,13 +1087,12 @@ fn collect_evaluated_properties_from_table_schema<'a>(
 
         if let Some(dependencies) = &table_schema.dependencies {
             for (dependent_key, dependency) in dependencies {
+                if !table_value.contains_key(dependent_key.as_str()) {
+                    continue;
+                }
                 result.mark_property(dependent_key.clone());
                 match dependency {
-                    tombi_schema_store::Dependency::Property(required_keys) => {
-                        for key in required_keys {
-                            result.mark_property(key.clone());
-                        }
-                    }
+                    tombi_schema_store::Dependency::Property(_) => {}
                     tombi_schema_store::Dependency::Schema(schema_item) => {
                         result.merge_from(
                             collect_evaluated_properties_from_schema_item(
@@ -1111,17 +1110,11 @@ fn collect_evaluated_properties_from_table_schema<'a>(
             }
         }
 
-        if let Some(dependent_required) = &table_schema.dependent_required {
-            for (dependent_key, required_keys) in dependent_required {
-                result.mark_property(dependent_key.clone());
-                for key in required_keys {
-                    result.mark_property(key.clone());
-                }
-            }
-        }
-
         if let Some(dependent_schemas) = &table_schema.dependent_schemas {
             for (dependent_key, schema_item) in dependent_schemas {
+                if !table_value.contains_key(dependent_key.as_str()) {
+                    continue;
+                }
                 result.mark_property(dependent_key.clone());
                 result.merge_from(
                     collect_evaluated_properties_from_schema_item(
-- 
2.43.0


From 6605f625198e9b543075d02354e4e8e23109bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 28/62] fix: apply the constraints next to references and
 nested applicators

---
 .../src/schema/semantic_schema.rs             | 32 ++++++++
 crates/tombi-validator/src/validate.rs        | 74 ++++++++++++++++++-
 2 files changed, 103 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/semantic_schema.rs b/crates/tombi-schema-store/src/schema/semantic_schema.rs
index c45333f..cb38b49 100644
--- a/crates/tombi-schema-store/src/schema/semantic_schema.rs
+++ b/crates/tombi-schema-store/src/schema/semantic_schema.rs
@@ -148,6 +148,15 @@ impl SemanticSchema {
         matches!(self, Self::Object(object) if object.assertions.const_value.is_some() || object.assertions.enum_values.is_some())
     }
 
+    /// Like [`Self::has_direct_literal_assertion`], but also looks into the
+    /// schemas a reference is composed of.
+    pub fn has_literal_assertion(&self) -> bool {
+        match self {
+            Self::Composite(composite) => composite.schemas.iter().any(Self::has_literal_assertion),
+            Self::Object(_) | Self::Boolean(_) => self.has_direct_literal_assertion(),
+        }
+    }
+
     /// Returns whether an instance type is admitted by the schema's explicit
     /// `type` assertion. Keywords for other types never imply a type here.
     pub fn accepts_instance_type(&self, instance_type: SchemaType) -> bool {
@@ -257,6 +266,29 @@ impl SemanticSchema {
         }
     }
 
+    /// Returns whether this schema itself, without the schemas it refers to,
+    /// may reject an instance.
+    pub fn has_assertions(&self) -> bool {
+        match self {
+            Self::Boolean(value) => !value.value,
+            Self::Composite(composite) => composite.schemas.iter().any(Self::has_assertions),
+            Self::Object(_) => {
+                self.has_direct_type_assertion()
+                    || self.has_applicators()
+                    || [
+                        SchemaType::Boolean,
+                        SchemaType::Integer,
+                        SchemaType::Number,
+                        SchemaType::String,
+                        SchemaType::Array,
+                        SchemaType::Object,
+                    ]
+                    .into_iter()
+                    .any(|instance_type| self.has_direct_constraints_for_type(instance_type))
+            }
+        }
+    }
+
     /// Creates a typed view used by LSP presentation and traversal.
     /// The semantic tree remains authoritative; this projection is always
     /// selected from the actual instance type and never inferred from keywords.
diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index 1f81a14..8129cf4 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -32,7 +32,7 @@ pub mod format {
     pub mod uuid;
 }
 
-use std::borrow::Cow;
+use std::{borrow::Cow, sync::Arc};
 
 pub use all_of::validate_all_of;
 pub use any_of::validate_any_of;
@@ -116,6 +116,7 @@ pub fn project_current_schema_for_value(
     schema_context: &tombi_schema_store::SchemaContext<'_>,
 ) -> Option<tombi_schema_store::CurrentSchema<'static>> {
     let current_schema = current_schema?;
+    let instance_type = tombi_schema_store::SchemaType::from_value_type(value.value_type())?;
     let is_boolean_schema = matches!(
         current_schema.semantic_schema.as_deref(),
         Some(tombi_schema_store::SemanticSchema::Boolean(_))
@@ -179,11 +180,63 @@ pub fn project_current_schema_for_value(
         tombi_schema_store::SchemaView::Anything(_) | tombi_schema_store::SchemaView::Nothing(_)
             if is_boolean_schema
     );
+    // The view is the one of the referenced schema. It admits the value, but a
+    // schema next to the reference may not.
+    if (matches_instance
+        || matches!(
+            current_schema.schema_view.as_ref(),
+            tombi_schema_store::SchemaView::Anything(_)
+                | tombi_schema_store::SchemaView::OneOf(_)
+                | tombi_schema_store::SchemaView::AnyOf(_)
+                | tombi_schema_store::SchemaView::AllOf(_)
+        ))
+        && let Some(semantic_schema @ tombi_schema_store::SemanticSchema::Composite(_)) =
+            current_schema.semantic_schema.as_deref()
+        && !semantic_schema.accepts_instance_type(instance_type)
+    {
+        return Some(CurrentSchema {
+            schema_view: Arc::new(tombi_schema_store::SchemaView::Nothing(
+                semantic_schema.range(),
+            )),
+            ..current_schema.clone().into_owned()
+        });
+    }
+    // Nor does the view show the constraints next to the reference, or those next
+    // to an applicator of the referenced schema.
+    if let Some(tombi_schema_store::SemanticSchema::Composite(composite)) =
+        current_schema.semantic_schema.as_deref()
+        && composite
+            .schemas
+            .iter()
+            .any(|schema| schema.has_direct_constraints_for_type(instance_type))
+    {
+        let mut asserting_schemas = composite
+            .schemas
+            .iter()
+            .filter(|schema| schema.has_assertions());
+        let projected_view = match (asserting_schemas.next(), asserting_schemas.next()) {
+            (Some(schema), None) if !matches_instance => {
+                schema.schema_view_for_type(instance_type, schema_context.string_formats())
+            }
+            (Some(_), Some(_)) if instance_type != tombi_schema_store::SchemaType::Object => {
+                current_schema.semantic_schema.as_deref().and_then(|schema| {
+                    schema.schema_view_for_type(instance_type, schema_context.string_formats())
+                })
+            }
+            _ => None,
+        };
+        if let Some(projected_view) = projected_view {
+            return Some(CurrentSchema {
+                schema_view: Arc::new(projected_view),
+                semantic_schema: None,
+                ..current_schema.clone().into_owned()
+            });
+        }
+    }
     if matches_instance {
         return None;
     }
 
-    let instance_type = tombi_schema_store::SchemaType::from_value_type(value.value_type())?;
     if matches!(
         current_schema.schema_view.as_ref(),
         tombi_schema_store::SchemaView::OneOf(_)
@@ -681,7 +734,7 @@ where
             .semantic_schema
             .as_deref()
             .is_some_and(|schema| {
-                !schema.has_type_assertion() && !schema.has_direct_literal_assertion()
+                !schema.has_type_assertion() && !schema.has_literal_assertion()
             })
         {
             let (one_of, any_of, all_of, not) = current_schema.schema_view.adjacent_applicators();
@@ -726,6 +779,21 @@ where
             .schema_visits
             .get_schema_view_cycle_guard(&resolved_schema.schema_view)?;
 
+        if matches!(
+            resolved_schema.schema_view.as_ref(),
+            tombi_schema_store::SchemaView::OneOf(_)
+                | tombi_schema_store::SchemaView::AnyOf(_)
+                | tombi_schema_store::SchemaView::AllOf(_)
+        ) && let Some(projected_schema) =
+            project_current_schema_for_value(value, Some(resolved_schema), schema_context)
+        {
+            return Some(
+                value
+                    .validate(accessors, Some(&projected_schema), schema_context)
+                    .await,
+            );
+        }
+
         match (value.value_type(), resolved_schema.schema_view.as_ref()) {
             (
                 tombi_document_tree::ValueType::Boolean,
-- 
2.43.0


From e42021a8eb457d9c2863eb9ad3ba9b2ff96f573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 29/62] fix: a position past the end of a document does not end
 the language server

---
 crates/tombi-rg-tree/src/cursor.rs            | 10 +++-----
 .../tombi-text/src/features/lsp/from_lsp.rs   | 25 +++++++++++--------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/tombi-rg-tree/src/cursor.rs b/crates/tombi-rg-tree/src/cursor.rs
index 8545f7f..3cfb2d1 100644
--- a/crates/tombi-rg-tree/src/cursor.rs
+++ b/crates/tombi-rg-tree/src/cursor.rs
@@ -938,11 +938,7 @@ impl SyntaxNode {
 
     pub fn token_at_position(&self, position: tombi_text::Position) -> TokenAtOffset<SyntaxToken> {
         let range = self.range();
-        debug_assert!(
-            range.start <= position && position <= range.end,
-            "Bad position: range {range:?} position {position:?}"
-        );
-        if range.is_empty() {
+        if range.is_empty() || position < range.start || range.end < position {
             return TokenAtOffset::None;
         }
 
@@ -952,7 +948,9 @@ impl SyntaxNode {
                 && (child_range.start <= position && position <= child_range.end)
         });
 
-        let left = children.next().unwrap();
+        let Some(left) = children.next() else {
+            return TokenAtOffset::None;
+        };
         let right = children.next();
         debug_assert!(children.next().is_none());
 
diff --git a/crates/tombi-text/src/features/lsp/from_lsp.rs b/crates/tombi-text/src/features/lsp/from_lsp.rs
index ef99746..fa8e30c 100644
--- a/crates/tombi-text/src/features/lsp/from_lsp.rs
+++ b/crates/tombi-text/src/features/lsp/from_lsp.rs
@@ -11,16 +11,21 @@ impl FromLsp<tower_lsp::lsp_types::Position> for crate::Position {
         source: tower_lsp::lsp_types::Position,
         line_index: &crate::LineIndex,
     ) -> crate::Position {
-        let column = line_index
-            .line_text(source.line)
-            .map(|line_text| {
-                let column_text =
-                    take_column_text(line_text, source.character, line_index.encoding_kind);
-                EncodingKind::GraphemeCluster.measure(column_text)
-            })
-            .unwrap_or_default();
-
-        crate::Position::new(source.line, column)
+        let Some(line_text) = line_index.line_text(source.line) else {
+            // A line past the end means the end of the document, as the LSP specification has it.
+            let last_line = line_index.len().saturating_sub(1) as crate::Line;
+            let column = line_index
+                .line_text(last_line)
+                .map(|line_text| EncodingKind::GraphemeCluster.measure(line_text))
+                .unwrap_or_default();
+            return crate::Position::new(last_line, column);
+        };
+        let column_text = take_column_text(line_text, source.character, line_index.encoding_kind);
+
+        crate::Position::new(
+            source.line,
+            EncodingKind::GraphemeCluster.measure(column_text),
+        )
     }
 }
 
-- 
2.43.0


From c7d68577b28c14a24bcbb6a197857b1d59aa930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 30/62] fix: keep the changes which follow the opening of a
 document

---
 crates/tombi-lsp/src/backend.rs            | 24 ++++++++++++++
 crates/tombi-lsp/src/handler/did_change.rs | 30 +++---------------
 crates/tombi-lsp/src/handler/did_open.rs   | 37 +++++++++++++++-------
 crates/tombi-lsp/src/handler/did_save.rs   | 26 +++++++--------
 4 files changed, 67 insertions(+), 50 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index ae6d246..af61c36 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -140,6 +140,30 @@ impl Backend {
         }
     }
 
+    /// Resolves the TOML version of the text and applies it to the document,
+    /// unless the document has another text in the meantime.
+    pub(crate) async fn refine_toml_version(&self, text_document_uri: &tombi_uri::Uri, text: &str) {
+        let toml_version = self
+            .text_document_toml_version(text_document_uri, text)
+            .await;
+
+        {
+            let mut document_sources = self.document_sources.write().await;
+            let Some(document) = document_sources.get_mut(text_document_uri) else {
+                return;
+            };
+            if document.toml_version == toml_version || document.text() != text {
+                return;
+            }
+            document.set_text(text, toml_version);
+        }
+
+        self.workspace_diagnostics_cache
+            .write()
+            .await
+            .clear(text_document_uri);
+    }
+
     pub fn spawn_background_task(&self, task: impl Future<Output = ()> + Send + 'static) {
         let mut background_tasks = self
             .background_tasks
diff --git a/crates/tombi-lsp/src/handler/did_change.rs b/crates/tombi-lsp/src/handler/did_change.rs
index 9ae6090..4c9012c 100644
--- a/crates/tombi-lsp/src/handler/did_change.rs
+++ b/crates/tombi-lsp/src/handler/did_change.rs
@@ -30,7 +30,7 @@ pub async fn handle_did_change(backend: &Backend, params: DidChangeTextDocumentP
     // diagnostics against the previous version. The TOML version is reused from the
     // previous parse here and refined below only if the edit actually changed it
     // (e.g. an edited `#:schema` directive).
-    let (need_publish_diagnostics, previous_toml_version) = {
+    let need_publish_diagnostics = {
         let mut document_sources = backend.document_sources.write().await;
         let Some(document) = document_sources.get_mut(&text_document_uri) else {
             return;
@@ -39,14 +39,13 @@ pub async fn handle_did_change(backend: &Backend, params: DidChangeTextDocumentP
         let need_publish_diagnostics = document
             .version
             .is_none_or(|version| version < text_document.version);
-        let previous_toml_version = document.toml_version;
 
         if let Some(text) = latest_text.as_ref() {
-            document.set_text(text, previous_toml_version);
+            document.set_text(text, document.toml_version);
         }
         document.version = Some(text_document.version);
 
-        (need_publish_diagnostics, previous_toml_version)
+        need_publish_diagnostics
     };
 
     backend
@@ -58,28 +57,7 @@ pub async fn handle_did_change(backend: &Backend, params: DidChangeTextDocumentP
     // Refine the TOML version if this edit changed it, and re-apply only when the
     // document has not been superseded by a newer change in the meantime.
     if let Some(text) = latest_text.as_ref() {
-        let toml_version = backend
-            .text_document_toml_version(&text_document_uri, text)
-            .await;
-
-        if toml_version != previous_toml_version {
-            {
-                let mut document_sources = backend.document_sources.write().await;
-                let Some(document) = document_sources.get_mut(&text_document_uri) else {
-                    return;
-                };
-                if document.version != Some(text_document.version) {
-                    return;
-                }
-                document.set_text(text, toml_version);
-            }
-
-            backend
-                .workspace_diagnostics_cache
-                .write()
-                .await
-                .clear(&text_document_uri);
-        }
+        backend.refine_toml_version(&text_document_uri, text).await;
     }
 
     if need_publish_diagnostics {
diff --git a/crates/tombi-lsp/src/handler/did_open.rs b/crates/tombi-lsp/src/handler/did_open.rs
index 0cbe89c..08f315b 100644
--- a/crates/tombi-lsp/src/handler/did_open.rs
+++ b/crates/tombi-lsp/src/handler/did_open.rs
@@ -22,22 +22,22 @@ pub async fn handle_did_open(backend: &Backend, params: DidOpenTextDocumentParam
 
     let text_document_uri: tombi_uri::Uri = text_document.uri.into();
     backend.begin_document_open(text_document_uri.clone());
-    let toml_version = backend
-        .text_document_toml_version(&text_document_uri, &text_document.text)
-        .await;
     let encoding_kind = backend.capabilities.read().await.encoding_kind;
-    let document_source = DocumentSource::new(
-        text_document.text,
-        Some(text_document.version),
-        toml_version,
-        encoding_kind,
-    );
-    let document_tree = document_source.document_tree();
 
+    // Insert the document up front, before the TOML version is resolved, so that the
+    // changes which are processed concurrently find it.
     {
         let mut document_sources = backend.document_sources.write().await;
 
-        document_sources.insert(text_document_uri.clone(), document_source);
+        document_sources.insert(
+            text_document_uri.clone(),
+            DocumentSource::new(
+                text_document.text.as_str(),
+                Some(text_document.version),
+                tombi_config::TomlVersion::default(),
+                encoding_kind,
+            ),
+        );
     }
 
     backend
@@ -46,6 +46,21 @@ pub async fn handle_did_open(backend: &Backend, params: DidOpenTextDocumentParam
         .await
         .clear(&text_document_uri);
 
+    backend
+        .refine_toml_version(&text_document_uri, &text_document.text)
+        .await;
+
+    let (document_tree, toml_version) = {
+        let document_sources = backend.document_sources.read().await;
+        match document_sources.get(&text_document_uri) {
+            Some(document) => (document.document_tree(), document.toml_version),
+            None => {
+                backend.finish_document_open(&text_document_uri);
+                return;
+            }
+        }
+    };
+
     let config_schema_store = backend
         .config_manager
         .config_schema_store_for_uri(&text_document_uri)
diff --git a/crates/tombi-lsp/src/handler/did_save.rs b/crates/tombi-lsp/src/handler/did_save.rs
index 548e394..1841ec7 100644
--- a/crates/tombi-lsp/src/handler/did_save.rs
+++ b/crates/tombi-lsp/src/handler/did_save.rs
@@ -16,19 +16,19 @@ pub async fn handle_did_save(backend: &Backend, params: DidSaveTextDocumentParam
     let mut need_publish_diagnostics = { backend.is_diagnostic_mode_push().await };
 
     if let Some(text) = text {
-        let mut document_sources = backend.document_sources.write().await;
-
-        let toml_version = backend
-            .text_document_toml_version(&text_document_uri, &text)
-            .await;
-
-        if let Some(document) = document_sources.get_mut(&text_document_uri) {
-            if need_publish_diagnostics && document.text() == text {
-                need_publish_diagnostics = false;
-            }
-
-            document.set_text(text, toml_version);
-        };
+        {
+            let mut document_sources = backend.document_sources.write().await;
+
+            if let Some(document) = document_sources.get_mut(&text_document_uri) {
+                if document.text() == text {
+                    need_publish_diagnostics = false;
+                } else {
+                    document.set_text(text.as_str(), document.toml_version);
+                }
+            };
+        }
+
+        backend.refine_toml_version(&text_document_uri, &text).await;
     };
 
     backend
-- 
2.43.0


From 40eea01b607c7c11b0720a809b3e0ffb8619ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 31/62] fix: answer requests and publish diagnostics while
 another document is written

---
 crates/tombi-lsp/src/backend.rs               | 27 ++++++++++-----
 crates/tombi-lsp/src/diagnostic.rs            | 33 +++++++++++--------
 crates/tombi-lsp/src/handler/code_action.rs   |  4 +--
 crates/tombi-lsp/src/handler/completion.rs    |  4 +--
 crates/tombi-lsp/src/handler/document_link.rs |  4 +--
 .../tombi-lsp/src/handler/document_symbol.rs  |  4 +--
 crates/tombi-lsp/src/handler/folding_range.rs |  4 +--
 crates/tombi-lsp/src/handler/formatting.rs    |  4 +--
 crates/tombi-lsp/src/handler/get_status.rs    |  2 +-
 .../tombi-lsp/src/handler/get_toml_version.rs |  7 +---
 .../tombi-lsp/src/handler/goto_declaration.rs |  4 +--
 .../tombi-lsp/src/handler/goto_definition.rs  |  4 +--
 .../src/handler/goto_type_definition.rs       |  4 +--
 crates/tombi-lsp/src/handler/hover.rs         |  4 +--
 crates/tombi-lsp/src/handler/inlay_hint.rs    |  5 +--
 crates/tombi-lsp/src/handler/references.rs    |  4 +--
 .../src/handler/semantic_tokens_full.rs       |  2 +-
 crates/tombi-lsp/src/location.rs              |  7 ++--
 18 files changed, 54 insertions(+), 73 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index af61c36..735cae7 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -140,6 +140,16 @@ impl Backend {
         }
     }
 
+    /// Returns the documents once the given document, if it is being opened, is among them.
+    pub(crate) async fn document_sources_for(
+        &self,
+        text_document_uri: &tombi_uri::Uri,
+    ) -> tokio::sync::RwLockReadGuard<'_, tombi_hashmap::HashMap<tombi_uri::Uri, DocumentSource>>
+    {
+        self.wait_for_document_open(text_document_uri).await;
+        self.document_sources.read().await
+    }
+
     /// Resolves the TOML version of the text and applies it to the document,
     /// unless the document has another text in the meantime.
     pub(crate) async fn refine_toml_version(&self, text_document_uri: &tombi_uri::Uri, text: &str) {
@@ -422,11 +432,12 @@ impl tower_lsp::LanguageServer for Backend {
             .uri
             .clone()
             .into();
-        let Ok(document_sources) = self.document_sources.try_read() else {
-            return Ok(None);
-        };
-        let Some(document_source) = document_sources.get(&text_document_uri) else {
-            return Ok(None);
+        let line_index = {
+            let document_sources = self.document_sources_for(&text_document_uri).await;
+            let Some(document_source) = document_sources.get(&text_document_uri) else {
+                return Ok(None);
+            };
+            document_source.line_index_arc()
         };
 
         handle_completion(self, params).await.map(|response| {
@@ -434,7 +445,7 @@ impl tower_lsp::LanguageServer for Backend {
                 CompletionResponse::Array(
                     items
                         .into_iter()
-                        .map(|item| item.into_lsp(document_source.line_index()))
+                        .map(|item| item.into_lsp(line_index.as_ref()))
                         .collect(),
                 )
             })
@@ -470,9 +481,7 @@ impl tower_lsp::LanguageServer for Backend {
             .clone()
             .into();
         let line_index = {
-            let Ok(document_sources) = self.document_sources.try_read() else {
-                return Ok(None);
-            };
+            let document_sources = self.document_sources_for(&text_document_uri).await;
             let Some(document_source) = document_sources.get(&text_document_uri) else {
                 return Ok(None);
             };
diff --git a/crates/tombi-lsp/src/diagnostic.rs b/crates/tombi-lsp/src/diagnostic.rs
index 1753190..fe0fd40 100644
--- a/crates/tombi-lsp/src/diagnostic.rs
+++ b/crates/tombi-lsp/src/diagnostic.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use itertools::{Either, Itertools};
 use tombi_glob::{MatchResult, matches_file_patterns};
 use tombi_text::{IntoLsp, LineIndex};
@@ -76,19 +78,21 @@ pub async fn get_diagnostics_result(
         }
     }
 
-    let (text, version, toml_version, encoding_kind) = {
-        let Ok(document_sources) = backend.document_sources.try_read() else {
-            return None;
-        };
+    let (text, version, encoding_kind) = {
+        let document_sources = backend.document_sources_for(text_document_uri).await;
         let document_source = document_sources.get(text_document_uri)?;
         (
             document_source.text_arc(),
             document_source.version,
-            document_source.toml_version,
             document_source.line_index().encoding_kind,
         )
     };
 
+    // The TOML version of the document can still be the one of its previous text.
+    let toml_version = backend
+        .text_document_toml_version(text_document_uri, text.as_ref())
+        .await;
+
     // Get lint options with override support
     let text_document_path = text_document_uri.to_file_path().ok();
     let Some(lint_options) = tombi_glob::get_lint_options(
@@ -126,15 +130,16 @@ pub async fn get_diagnostics_result(
     };
 
     {
-        let mut workspace_diagnostics_cache = backend.workspace_diagnostics_cache.write().await;
-        if let Ok(document_sources) = backend.document_sources.try_read() {
-            let current_version = document_sources
-                .get(text_document_uri)
-                .and_then(|document_source| document_source.version);
-            if current_version == diagnostics_result.version {
-                workspace_diagnostics_cache
-                    .set(text_document_uri.clone(), diagnostics_result.clone());
-            }
+        let document_sources = backend.document_sources.read().await;
+        if document_sources
+            .get(text_document_uri)
+            .is_some_and(|document_source| Arc::ptr_eq(&document_source.text_arc(), &text))
+        {
+            backend
+                .workspace_diagnostics_cache
+                .write()
+                .await
+                .set(text_document_uri.clone(), diagnostics_result.clone());
         }
     }
 
diff --git a/crates/tombi-lsp/src/handler/code_action.rs b/crates/tombi-lsp/src/handler/code_action.rs
index e186960..da29ae8 100644
--- a/crates/tombi-lsp/src/handler/code_action.rs
+++ b/crates/tombi-lsp/src/handler/code_action.rs
@@ -45,9 +45,7 @@ pub async fn handle_code_action(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/completion.rs b/crates/tombi-lsp/src/handler/completion.rs
index adb5bb7..fee8a52 100644
--- a/crates/tombi-lsp/src/handler/completion.rs
+++ b/crates/tombi-lsp/src/handler/completion.rs
@@ -65,9 +65,7 @@ pub async fn handle_completion(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         log::trace!("document_source not found");
         return Ok(None);
diff --git a/crates/tombi-lsp/src/handler/document_link.rs b/crates/tombi-lsp/src/handler/document_link.rs
index 1db79e4..87cf432 100644
--- a/crates/tombi-lsp/src/handler/document_link.rs
+++ b/crates/tombi-lsp/src/handler/document_link.rs
@@ -32,9 +32,7 @@ pub async fn handle_document_link(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/document_symbol.rs b/crates/tombi-lsp/src/handler/document_symbol.rs
index 931f5d4..4cb674e 100644
--- a/crates/tombi-lsp/src/handler/document_symbol.rs
+++ b/crates/tombi-lsp/src/handler/document_symbol.rs
@@ -16,9 +16,7 @@ pub async fn handle_document_symbol(
 
     let text_document_uri = text_document.uri.into();
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/folding_range.rs b/crates/tombi-lsp/src/handler/folding_range.rs
index cdc0905..957efe5 100644
--- a/crates/tombi-lsp/src/handler/folding_range.rs
+++ b/crates/tombi-lsp/src/handler/folding_range.rs
@@ -14,9 +14,7 @@ pub async fn handle_folding_range(
     let FoldingRangeParams { text_document, .. } = params;
     let text_document_uri = text_document.uri.into();
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 18bb6d8..096bfd3 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -72,9 +72,7 @@ pub async fn handle_formatting(
     }
 
     let (toml_version, document_text, line_index, version) = {
-        let Ok(document_sources) = backend.document_sources.try_read() else {
-            return Ok(None);
-        };
+        let document_sources = backend.document_sources_for(&text_document_uri).await;
         let Some(document_source) = document_sources.get(&text_document_uri) else {
             return Ok(None);
         };
diff --git a/crates/tombi-lsp/src/handler/get_status.rs b/crates/tombi-lsp/src/handler/get_status.rs
index caf8b7a..3e09012 100644
--- a/crates/tombi-lsp/src/handler/get_status.rs
+++ b/crates/tombi-lsp/src/handler/get_status.rs
@@ -28,7 +28,7 @@ pub async fn handle_get_status(
         .await;
 
     let (toml_version, source, schema) = {
-        let document_sources = backend.document_sources.read().await;
+        let document_sources = backend.document_sources_for(&text_document_uri).await;
         if let Some(document_source) = document_sources.get(&text_document_uri) {
             let (toml_version, source) = backend
                 .text_document_toml_version_and_source(&text_document_uri, document_source.text())
diff --git a/crates/tombi-lsp/src/handler/get_toml_version.rs b/crates/tombi-lsp/src/handler/get_toml_version.rs
index e60508c..39a8db3 100644
--- a/crates/tombi-lsp/src/handler/get_toml_version.rs
+++ b/crates/tombi-lsp/src/handler/get_toml_version.rs
@@ -14,12 +14,7 @@ pub async fn handle_get_toml_version(
     let text_document_uri = uri.into();
 
     let (toml_version, source) = {
-        let Ok(document_sources) = backend.document_sources.try_read() else {
-            return Ok(GetTomlVersionResponse {
-                toml_version: TomlVersion::default(),
-                source: TomlVersionSource::Default,
-            });
-        };
+        let document_sources = backend.document_sources_for(&text_document_uri).await;
         if let Some(document_source) = document_sources.get(&text_document_uri) {
             backend
                 .text_document_toml_version_and_source(&text_document_uri, document_source.text())
diff --git a/crates/tombi-lsp/src/handler/goto_declaration.rs b/crates/tombi-lsp/src/handler/goto_declaration.rs
index eb648a4..17e11c5 100644
--- a/crates/tombi-lsp/src/handler/goto_declaration.rs
+++ b/crates/tombi-lsp/src/handler/goto_declaration.rs
@@ -40,9 +40,7 @@ pub async fn handle_goto_declaration(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/goto_definition.rs b/crates/tombi-lsp/src/handler/goto_definition.rs
index d234e94..3bdcd11 100644
--- a/crates/tombi-lsp/src/handler/goto_definition.rs
+++ b/crates/tombi-lsp/src/handler/goto_definition.rs
@@ -39,9 +39,7 @@ pub async fn handle_goto_definition(
         return Ok(Default::default());
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(Default::default());
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(Default::default());
     };
diff --git a/crates/tombi-lsp/src/handler/goto_type_definition.rs b/crates/tombi-lsp/src/handler/goto_type_definition.rs
index e791f29..4e7efde 100644
--- a/crates/tombi-lsp/src/handler/goto_type_definition.rs
+++ b/crates/tombi-lsp/src/handler/goto_type_definition.rs
@@ -51,9 +51,7 @@ pub async fn handle_goto_type_definition(
         return Ok(Default::default());
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(Default::default());
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(Default::default());
     };
diff --git a/crates/tombi-lsp/src/handler/hover.rs b/crates/tombi-lsp/src/handler/hover.rs
index 9cbf5cc..a2eeae7 100644
--- a/crates/tombi-lsp/src/handler/hover.rs
+++ b/crates/tombi-lsp/src/handler/hover.rs
@@ -50,9 +50,7 @@ pub async fn handle_hover(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/inlay_hint.rs b/crates/tombi-lsp/src/handler/inlay_hint.rs
index 88e3fb3..7f29d87 100644
--- a/crates/tombi-lsp/src/handler/inlay_hint.rs
+++ b/crates/tombi-lsp/src/handler/inlay_hint.rs
@@ -18,7 +18,6 @@ pub async fn handle_inlay_hint(
         ..
     } = params;
     let text_document_uri = text_document.uri.into();
-    backend.wait_for_document_open(&text_document_uri).await;
 
     let ConfigSchemaStore {
         config,
@@ -30,9 +29,7 @@ pub async fn handle_inlay_hint(
         .await;
 
     let (document_tree, toml_version, visible_range, line_index) = {
-        let Ok(document_sources) = backend.document_sources.try_read() else {
-            return Ok(None);
-        };
+        let document_sources = backend.document_sources_for(&text_document_uri).await;
         let Some(document_source) = document_sources.get(&text_document_uri) else {
             return Ok(None);
         };
diff --git a/crates/tombi-lsp/src/handler/references.rs b/crates/tombi-lsp/src/handler/references.rs
index e127b73..d78bcd4 100644
--- a/crates/tombi-lsp/src/handler/references.rs
+++ b/crates/tombi-lsp/src/handler/references.rs
@@ -41,9 +41,7 @@ pub async fn handle_references(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/handler/semantic_tokens_full.rs b/crates/tombi-lsp/src/handler/semantic_tokens_full.rs
index b0d26a4..16cd507 100644
--- a/crates/tombi-lsp/src/handler/semantic_tokens_full.rs
+++ b/crates/tombi-lsp/src/handler/semantic_tokens_full.rs
@@ -15,7 +15,7 @@ pub async fn handle_semantic_tokens_full(
     let SemanticTokensParams { text_document, .. } = params;
     let text_document_uri: tombi_uri::Uri = text_document.uri.into();
 
-    let document_sources = backend.document_sources.read().await;
+    let document_sources = backend.document_sources_for(&text_document_uri).await;
     let Some(document_source) = document_sources.get(&text_document_uri) else {
         return Ok(None);
     };
diff --git a/crates/tombi-lsp/src/location.rs b/crates/tombi-lsp/src/location.rs
index c102fe9..dbd8925 100644
--- a/crates/tombi-lsp/src/location.rs
+++ b/crates/tombi-lsp/src/location.rs
@@ -18,7 +18,7 @@ pub async fn into_lsp_locations(
         }
     }
 
-    let document_sources = backend.document_sources.try_read().ok();
+    let document_sources = backend.document_sources.read().await;
 
     let locations = locations
         .into_iter()
@@ -26,10 +26,7 @@ pub async fn into_lsp_locations(
             if let Some(remote_uri) = uri_set.get(&location.uri) {
                 location.uri = remote_uri.clone();
             }
-            let range = match document_sources
-                .as_ref()
-                .and_then(|ds| ds.get(&location.uri))
-            {
+            let range = match document_sources.get(&location.uri) {
                 Some(document_source) => location.range.into_lsp(document_source.line_index()),
                 None => tombi_text::convert_range_to_lsp(location.range),
             };
-- 
2.43.0


From 88865da858d95f934caf83d760b875b98c561a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 32/62] fix: formatting neither hides the diagnostics nor
 assumes that its edits are applied

---
 crates/tombi-lsp/src/handler/formatting.rs | 71 +++++++++++++---------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 096bfd3..b5c999d 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -5,12 +5,14 @@ use tombi_config::{FormatRules, IndentStyle, IndentWidth, OverrideFormatOptions}
 use tombi_glob::{MatchResult, matches_file_patterns};
 use tombi_text::{IntoLsp, Position, Range};
 use tower_lsp::lsp_types::{
-    DocumentFormattingParams, FormattingOptions, PublishDiagnosticsParams, TextEdit,
+    Diagnostic, DocumentFormattingParams, FormattingOptions, PublishDiagnosticsParams, TextEdit,
     notification::PublishDiagnostics,
 };
 use unicode_segmentation::UnicodeSegmentation;
 
-use crate::{backend::Backend, config_manager::ConfigSchemaStore};
+use crate::{
+    backend::Backend, config_manager::ConfigSchemaStore, diagnostic::get_diagnostics_result,
+};
 
 pub async fn handle_formatting(
     backend: &Backend,
@@ -71,20 +73,24 @@ pub async fn handle_formatting(
         }
     }
 
-    let (toml_version, document_text, line_index, version) = {
+    let (document_text, line_index, version) = {
         let document_sources = backend.document_sources_for(&text_document_uri).await;
         let Some(document_source) = document_sources.get(&text_document_uri) else {
             return Ok(None);
         };
 
         (
-            document_source.toml_version,
             document_source.text_arc(),
             document_source.line_index_arc(),
             document_source.version,
         )
     };
 
+    // The TOML version of the document can still be the one of its previous text.
+    let toml_version = backend
+        .text_document_toml_version(&text_document_uri, document_text.as_ref())
+        .await;
+
     // Get format options with override support
     let text_document_path = text_document_uri.to_file_path().ok();
     let Some(format_options) = tombi_glob::get_format_options(
@@ -113,45 +119,52 @@ pub async fn handle_formatting(
                 let edits =
                     compute_text_edits(document_text.as_ref(), &formatted, line_index.as_ref());
                 log::debug!("edits: {:?}", edits);
-                if let Ok(mut document_sources) = backend.document_sources.try_write()
-                    && let Some(document_source) = document_sources.get_mut(&text_document_uri)
-                    && document_source.text() == document_text.as_ref()
-                {
-                    document_source.set_text(formatted, toml_version);
-                }
 
                 return Ok(Some(edits));
             } else {
                 log::debug!("no change");
-                backend
-                    .client
-                    .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-                        uri: text_document_uri.into(),
-                        diagnostics: Vec::new(),
-                        version,
-                    })
-                    .await;
+                publish_format_diagnostics(backend, text_document_uri, Vec::new(), version).await;
             }
         }
         Err(diagnostics) => {
             log::error!("failed to format");
-            backend
-                .client
-                .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-                    uri: text_document_uri.into(),
-                    diagnostics: diagnostics
-                        .into_iter()
-                        .map(|diagnostic| diagnostic.into_lsp(line_index.as_ref()))
-                        .collect_vec(),
-                    version,
-                })
-                .await;
+            let diagnostics = diagnostics
+                .into_iter()
+                .map(|diagnostic| diagnostic.into_lsp(line_index.as_ref()))
+                .collect_vec();
+            publish_format_diagnostics(backend, text_document_uri, diagnostics, version).await;
         }
     }
 
     Ok(None)
 }
 
+/// In the push mode, the published diagnostics replace those of the linter,
+/// so that these, which have the syntax errors as well, are published instead.
+async fn publish_format_diagnostics(
+    backend: &Backend,
+    text_document_uri: tombi_uri::Uri,
+    diagnostics: Vec<Diagnostic>,
+    version: Option<i32>,
+) {
+    let (diagnostics, version) = if backend.is_diagnostic_mode_push().await
+        && let Some(diagnostics_result) = get_diagnostics_result(backend, &text_document_uri).await
+    {
+        (diagnostics_result.diagnostics, diagnostics_result.version)
+    } else {
+        (diagnostics, version)
+    };
+
+    backend
+        .client
+        .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
+            uri: text_document_uri.into(),
+            diagnostics,
+            version,
+        })
+        .await;
+}
+
 #[allow(dead_code)]
 fn use_editor_formatting_options(
     config: &mut tombi_config::Config,
-- 
2.43.0


From d2951120e401920aac49796631b6a9000dfca834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 33/62] fix: folding ranges in the negotiated position encoding

---
 crates/tombi-lsp/src/handler/folding_range.rs | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/handler/folding_range.rs b/crates/tombi-lsp/src/handler/folding_range.rs
index 957efe5..f75ea5f 100644
--- a/crates/tombi-lsp/src/handler/folding_range.rs
+++ b/crates/tombi-lsp/src/handler/folding_range.rs
@@ -1,5 +1,6 @@
 use itertools::Itertools;
 use tombi_ast::{AstNode, DanglingCommentGroupOr};
+use tombi_text::IntoLsp;
 use tower_lsp::lsp_types::{FoldingRange, FoldingRangeKind, FoldingRangeParams};
 
 use crate::backend::Backend;
@@ -19,7 +20,11 @@ pub async fn handle_folding_range(
         return Ok(None);
     };
 
-    let folding_ranges = create_folding_ranges(&document_source.ast());
+    let line_index = document_source.line_index();
+    let folding_ranges = create_folding_ranges(&document_source.ast())
+        .into_iter()
+        .map(|folding_range| into_lsp_folding_range(folding_range, line_index))
+        .collect_vec();
 
     if !folding_ranges.is_empty() {
         Ok(Some(folding_ranges))
@@ -28,6 +33,29 @@ pub async fn handle_folding_range(
     }
 }
 
+/// Converts the columns of the folding range to the characters of the negotiated encoding.
+fn into_lsp_folding_range(
+    folding_range: FoldingRange,
+    line_index: &tombi_text::LineIndex,
+) -> FoldingRange {
+    let into_lsp_character = |line, column: Option<u32>| {
+        column.map(|column| {
+            let position: tower_lsp::lsp_types::Position =
+                tombi_text::Position::new(line, column).into_lsp(line_index);
+            position.character
+        })
+    };
+
+    FoldingRange {
+        start_character: into_lsp_character(
+            folding_range.start_line,
+            folding_range.start_character,
+        ),
+        end_character: into_lsp_character(folding_range.end_line, folding_range.end_character),
+        ..folding_range
+    }
+}
+
 fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
     let mut ranges: Vec<FoldingRange> = vec![];
 
-- 
2.43.0


From 2bab1bb17ecb389f95721574cb1e115929bd66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 34/62] fix: going to a type definition does not wait for its
 own lock forever

---
 crates/tombi-lsp/src/goto_type_definition/value/table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lsp/src/goto_type_definition/value/table.rs b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
index e05a283..2e45be5 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/table.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
@@ -68,13 +68,14 @@ impl GetTypeDefinition for tombi_document_tree::Table {
                                     .chain(std::iter::once(accessor))
                                     .collect_vec();
 
-                                if let Some(key_range) = table_schema
+                                // NOTE: the lock must be released before the property is resolved.
+                                let key_range = table_schema
                                     .properties
                                     .read()
                                     .await
                                     .get(&schema_accessor)
-                                    .map(|property_schema| property_schema.key_range)
-                                {
+                                    .map(|property_schema| property_schema.key_range);
+                                if let Some(key_range) = key_range {
                                     if let Ok(Some(current_schema)) = table_schema
                                         .resolve_property_schema(
                                             &schema_accessor,
-- 
2.43.0


From 7e7267e9721ef95f3fa3ad900af276067e1018be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 35/62] fix: hovering over an unclosed array or inline table
 does not panic

---
 crates/tombi-ast/src/impls/value.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-ast/src/impls/value.rs b/crates/tombi-ast/src/impls/value.rs
index 635e812..cfdce3c 100644
--- a/crates/tombi-ast/src/impls/value.rs
+++ b/crates/tombi-ast/src/impls/value.rs
@@ -37,11 +37,16 @@ impl crate::Value {
             Self::LocalDate(date) => date.token().unwrap().range(),
             Self::LocalTime(time) => time.token().unwrap().range(),
             Self::Array(array) => {
-                array.bracket_start().unwrap().range() + array.bracket_end().unwrap().range()
-            }
-            Self::InlineTable(table) => {
-                table.brace_start().unwrap().range() + table.brace_end().unwrap().range()
+                // NOTE: The closing bracket is missing while the user is typing.
+                match (array.bracket_start(), array.bracket_end()) {
+                    (Some(start), Some(end)) => start.range() + end.range(),
+                    _ => array.range(),
+                }
             }
+            Self::InlineTable(table) => match (table.brace_start(), table.brace_end()) {
+                (Some(start), Some(end)) => start.range() + end.range(),
+                _ => table.range(),
+            },
         }
     }
 }
-- 
2.43.0


From b819c10754a33024cb853ccb8b65c542335ac772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 36/62] fix: the edits of a completion neither overlap nor end
 before they start

---
 crates/tombi-extension/src/completion/completion_edit.rs | 8 ++++----
 crates/tombi-lsp/src/completion.rs                       | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/tombi-extension/src/completion/completion_edit.rs b/crates/tombi-extension/src/completion/completion_edit.rs
index bc6878f..156eafa 100644
--- a/crates/tombi-extension/src/completion/completion_edit.rs
+++ b/crates/tombi-extension/src/completion/completion_edit.rs
@@ -480,11 +480,11 @@ impl CompletionEdit {
         Some(Self {
             text_edit: CompletionTextEdit::Edit(TextEdit {
                 new_text: format!("#:schema ${{0:{schema_uri}}}"),
-                range: tombi_text::Range::at(position),
+                range: tombi_text::Range::new(position, comment_range.end),
             }),
             insert_text_format: Some(InsertTextFormat::SNIPPET),
             additional_text_edits: Some(vec![TextEdit {
-                range: comment_range,
+                range: tombi_text::Range::new(comment_range.start, position),
                 new_text: "".to_string(),
             }]),
         })
@@ -498,11 +498,11 @@ impl CompletionEdit {
         Some(Self {
             text_edit: CompletionTextEdit::Edit(TextEdit {
                 new_text: format!("#:{directive_name} "),
-                range: tombi_text::Range::at(position),
+                range: tombi_text::Range::new(position, comment_range.end),
             }),
             insert_text_format: None,
             additional_text_edits: Some(vec![TextEdit {
-                range: comment_range,
+                range: tombi_text::Range::new(comment_range.start, position),
                 new_text: "".to_string(),
             }]),
         })
diff --git a/crates/tombi-lsp/src/completion.rs b/crates/tombi-lsp/src/completion.rs
index 1ae7d25..6167333 100644
--- a/crates/tombi-lsp/src/completion.rs
+++ b/crates/tombi-lsp/src/completion.rs
@@ -102,6 +102,7 @@ pub fn extract_keys_and_hint(
         let ast_keys = if tombi_ast::Keys::cast(node.to_owned()).is_some() {
             if let Some(SyntaxElement::Token(last_token)) = node.last_child_or_token()
                 && last_token.kind() == SyntaxKind::DOT
+                && last_token.range().start <= position
             {
                 completion_hint = Some(CompletionHint::DotTrigger {
                     range: last_token.range(),
@@ -119,7 +120,7 @@ pub fn extract_keys_and_hint(
             }
             match (kv.eq(), kv.value()) {
                 (Some(_), Some(_)) => {}
-                (Some(eq), None) => {
+                (Some(eq), None) if kv_keys.range().end <= position => {
                     completion_hint = Some(CompletionHint::EqualTrigger {
                         range: eq.range(),
                         cleanup_range: tombi_text::Range {
@@ -137,6 +138,7 @@ pub fn extract_keys_and_hint(
                             _ => false,
                         })
                         .last()
+                        && last_dot.range().start <= position
                     {
                         completion_hint = Some(CompletionHint::DotTrigger {
                             range: last_dot.range(),
-- 
2.43.0


From 4d21048896960a48969c72ba26c912d2e1d5253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 37/62] fix: a multi-line string has a semantic token on each
 of its lines

---
 .../tombi-lsp/src/semantic_tokens/builder.rs  | 109 +++++++++---------
 1 file changed, 53 insertions(+), 56 deletions(-)

diff --git a/crates/tombi-lsp/src/semantic_tokens/builder.rs b/crates/tombi-lsp/src/semantic_tokens/builder.rs
index eaedcea..4b6807e 100644
--- a/crates/tombi-lsp/src/semantic_tokens/builder.rs
+++ b/crates/tombi-lsp/src/semantic_tokens/builder.rs
@@ -7,7 +7,7 @@ use super::token_type::TokenType;
 
 pub struct SemanticTokensBuilder<'a> {
     tokens: Vec<SemanticToken>,
-    last_range: tombi_text::Range,
+    last_start: tombi_text::Position,
     line_index: &'a tombi_text::LineIndex,
     pub text_document_uri: tombi_uri::Uri,
 }
@@ -16,7 +16,7 @@ impl<'a> SemanticTokensBuilder<'a> {
     pub fn new(text_document_uri: tombi_uri::Uri, line_index: &'a tombi_text::LineIndex) -> Self {
         Self {
             tokens: Vec::new(),
-            last_range: tombi_text::Range::default(),
+            last_start: tombi_text::Position::default(),
             line_index,
             text_document_uri,
         }
@@ -24,19 +24,36 @@ impl<'a> SemanticTokensBuilder<'a> {
 
     pub fn add_token(&mut self, token_type: TokenType, elem: tombi_syntax::SyntaxElement) {
         let range: tombi_text::Range = elem.range();
-        let (delta_line, delta_start) =
-            delta_line_and_start(self.last_range.start, range.start, self.line_index);
-
-        #[allow(clippy::cast_possible_truncation)]
-        self.tokens.push(SemanticToken {
-            delta_line,
-            delta_start,
-            length: token_length(range, self.line_index),
-            token_type: token_type as u32,
-            token_modifiers_bitset: 0,
-        });
-
-        self.last_range = range;
+        let token_type = token_type as u32;
+
+        // NOTE: A token of the protocol does not span lines, so that a multi-line string
+        //       has one on each of its lines.
+        for line in range.start.line..=range.end.line {
+            let start = if line == range.start.line {
+                range.start
+            } else {
+                tombi_text::Position::new(line, 0)
+            };
+            let end_column = (line == range.end.line).then_some(range.end.column);
+            let length = token_length(start, end_column, self.line_index);
+            if length == 0 {
+                continue;
+            }
+
+            let (delta_line, delta_start) =
+                delta_line_and_start(self.last_start, start, self.line_index);
+
+            #[allow(clippy::cast_possible_truncation)]
+            self.tokens.push(SemanticToken {
+                delta_line,
+                delta_start,
+                length,
+                token_type,
+                token_modifiers_bitset: 0,
+            });
+
+            self.last_start = start;
+        }
     }
 
     pub fn add_comment_directive(
@@ -48,9 +65,9 @@ impl<'a> SemanticTokensBuilder<'a> {
         let directive_range =
             tower_lsp::lsp_types::Range::from_lsp(directive_range, self.line_index);
         let (delta_line, delta_start) =
-            delta_line_and_start(self.last_range.start, comment_range.start, self.line_index);
+            delta_line_and_start(self.last_start, comment_range.start, self.line_index);
 
-        self.last_range = comment_range;
+        self.last_start = comment_range.start;
 
         let comment_range = tower_lsp::lsp_types::Range::from_lsp(comment_range, self.line_index);
         let prefix_len = directive_range.start.character - comment_range.start.character;
@@ -103,45 +120,25 @@ fn delta_line_and_start(
     (line, start)
 }
 
-fn token_length(range: tombi_text::Range, line_index: &tombi_text::LineIndex) -> u32 {
+/// The length from the start to the end column, or to the end of the line.
+fn token_length(
+    start: tombi_text::Position,
+    end_column: Option<u32>,
+    line_index: &tombi_text::LineIndex,
+) -> u32 {
     let encoding_kind = line_index.encoding_kind;
 
-    if range.start.line == range.end.line {
-        let Some(line_text) = line_index.line_text(range.start.line) else {
-            log::error!("line_text is None. line: {}", range.start.line);
-            return 0;
-        };
-        let line_text_graphemes = line_text.graphemes(true);
-        line_text_graphemes
-            .skip(range.start.column as usize)
-            .take((range.end.column - range.start.column) as usize)
-            .fold(0, |acc, char| acc + encoding_kind.measure(char))
-    } else {
-        (range.start.line..=range.end.line).fold(0, |acc, line| {
-            acc + line_index
-                .line_text(line)
-                .map(|line_text| {
-                    let line_text_graphemes = line_text.graphemes(true);
-                    let skip_count = if line == range.start.line {
-                        range.start.column as usize
-                    } else {
-                        0
-                    };
-                    let take_count = if line == range.end.line {
-                        if range.end.line == range.start.line {
-                            (range.end.column - range.start.column) as usize
-                        } else {
-                            range.end.column as usize
-                        }
-                    } else {
-                        line_text_graphemes.size_hint().1.unwrap()
-                    };
-                    line_text_graphemes
-                        .skip(skip_count)
-                        .take(take_count)
-                        .fold(0, |acc, char| acc + encoding_kind.measure(char))
-                })
-                .unwrap_or_default()
-        })
-    }
+    let Some(line_text) = line_index.line_text(start.line) else {
+        log::error!("line_text is None. line: {}", start.line);
+        return 0;
+    };
+    let take_count = end_column.map_or(usize::MAX, |end_column| {
+        end_column.saturating_sub(start.column) as usize
+    });
+
+    line_text
+        .graphemes(true)
+        .skip(start.column as usize)
+        .take(take_count)
+        .fold(0, |acc, char| acc + encoding_kind.measure(char))
 }
-- 
2.43.0


From c7c172077bf9bf4b01c492f2cf49e2a26fd65848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 38/62] fix: a document that the client has open outlives its
 file

---
 crates/tombi-lsp/src/handler/did_change_watched_files.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tombi-lsp/src/handler/did_change_watched_files.rs b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
index 223931f..a2e23e4 100644
--- a/crates/tombi-lsp/src/handler/did_change_watched_files.rs
+++ b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
@@ -31,6 +31,14 @@ pub async fn handle_did_change_watched_files(
                 }
                 {
                     let mut document_sources = backend.document_sources.write().await;
+                    if document_sources
+                        .get(&uri)
+                        .is_some_and(|source| source.version.is_some())
+                    {
+                        // The text of an open document is the one of the client.
+                        log::debug!("keep open document: {uri}");
+                        continue;
+                    }
                     document_sources.remove(&uri);
                 }
 
-- 
2.43.0


From 9e41b3e796966c467d1cd96aa46481a226ca4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 39/62] fix: diagnostics of an older version are not published
 after newer ones

---
 crates/tombi-lsp/src/backend.rs              | 27 ++++++++++++++++++++
 crates/tombi-lsp/src/handler/diagnostic.rs   |  3 +--
 crates/tombi-lsp/src/handler/did_close.rs    |  3 +--
 crates/tombi-lsp/src/handler/formatting.rs   | 12 ++-------
 crates/tombi-lsp/src/workspace_diagnostic.rs |  3 +--
 5 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index 735cae7..821a983 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -57,6 +57,7 @@ pub struct Backend {
     >,
     pub config_manager: Arc<ConfigManager>,
     pub workspace_diagnostics_cache: Arc<tokio::sync::RwLock<WorkspaceDiagnosticsCache>>,
+    publishing_diagnostics: Arc<tokio::sync::Mutex<()>>,
 }
 
 #[derive(Debug)]
@@ -104,6 +105,7 @@ impl Backend {
             opening_documents: Default::default(),
             config_manager: Arc::new(ConfigManager::new(options)),
             workspace_diagnostics_cache: Default::default(),
+            publishing_diagnostics: Default::default(),
         }
     }
 
@@ -150,6 +152,31 @@ impl Backend {
         self.document_sources.read().await
     }
 
+    /// Publishes the diagnostics, unless the document has another version in the meantime.
+    pub(crate) async fn publish_diagnostics(
+        &self,
+        text_document_uri: tombi_uri::Uri,
+        diagnostics: Vec<tower_lsp::lsp_types::Diagnostic>,
+        version: Option<i32>,
+    ) {
+        // The diagnostics of an older version must not be sent after those of a newer one.
+        let _publishing = self.publishing_diagnostics.lock().await;
+        let current_version = self
+            .document_sources
+            .read()
+            .await
+            .get(&text_document_uri)
+            .and_then(|document_source| document_source.version);
+        if version != current_version {
+            log::debug!("skip publishing outdated diagnostics: {text_document_uri}");
+            return;
+        }
+
+        self.client
+            .publish_diagnostics(text_document_uri.into(), diagnostics, version)
+            .await;
+    }
+
     /// Resolves the TOML version of the text and applies it to the document,
     /// unless the document has another text in the meantime.
     pub(crate) async fn refine_toml_version(&self, text_document_uri: &tombi_uri::Uri, text: &str) {
diff --git a/crates/tombi-lsp/src/handler/diagnostic.rs b/crates/tombi-lsp/src/handler/diagnostic.rs
index fca4ca9..486795b 100644
--- a/crates/tombi-lsp/src/handler/diagnostic.rs
+++ b/crates/tombi-lsp/src/handler/diagnostic.rs
@@ -68,7 +68,6 @@ pub async fn push_diagnostics(backend: &Backend, text_document_uri: tombi_uri::U
     } = diagnostics_result;
 
     backend
-        .client
-        .publish_diagnostics(params.text_document.uri.into(), diagnostics, version)
+        .publish_diagnostics(params.text_document.uri, diagnostics, version)
         .await;
 }
diff --git a/crates/tombi-lsp/src/handler/did_close.rs b/crates/tombi-lsp/src/handler/did_close.rs
index eb712b1..c685449 100644
--- a/crates/tombi-lsp/src/handler/did_close.rs
+++ b/crates/tombi-lsp/src/handler/did_close.rs
@@ -38,8 +38,7 @@ pub async fn handle_did_close(backend: &Backend, params: DidCloseTextDocumentPar
         .value()
     {
         backend
-            .client
-            .publish_diagnostics(text_document.uri, Vec::new(), None)
+            .publish_diagnostics(text_document.uri.into(), Vec::new(), None)
             .await;
     }
 }
diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index b5c999d..ce605f7 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -4,10 +4,7 @@ use itertools::{Either, Itertools};
 use tombi_config::{FormatRules, IndentStyle, IndentWidth, OverrideFormatOptions};
 use tombi_glob::{MatchResult, matches_file_patterns};
 use tombi_text::{IntoLsp, Position, Range};
-use tower_lsp::lsp_types::{
-    Diagnostic, DocumentFormattingParams, FormattingOptions, PublishDiagnosticsParams, TextEdit,
-    notification::PublishDiagnostics,
-};
+use tower_lsp::lsp_types::{Diagnostic, DocumentFormattingParams, FormattingOptions, TextEdit};
 use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{
@@ -156,12 +153,7 @@ async fn publish_format_diagnostics(
     };
 
     backend
-        .client
-        .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-            uri: text_document_uri.into(),
-            diagnostics,
-            version,
-        })
+        .publish_diagnostics(text_document_uri, diagnostics, version)
         .await;
 }
 
diff --git a/crates/tombi-lsp/src/workspace_diagnostic.rs b/crates/tombi-lsp/src/workspace_diagnostic.rs
index af6cd3e..d7281f5 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic.rs
@@ -122,8 +122,7 @@ async fn publish_workspace_diagnostics(
     }
 
     backend
-        .client
-        .publish_diagnostics(text_document_uri.into(), diagnostics, version)
+        .publish_diagnostics(text_document_uri, diagnostics, version)
         .await
 }
 
-- 
2.43.0


From f71a87aa86166c7d876290c0fa46cd5c17c491bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 40/62] fix: conversions between dotted keys and inline tables
 keep the data

---
 crates/tombi-lsp/src/code_action.rs | 25 ++++++++++++++++++++++---
 crates/tombi-lsp/src/completion.rs  |  7 +++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lsp/src/code_action.rs b/crates/tombi-lsp/src/code_action.rs
index bde91f3..dba4d39 100644
--- a/crates/tombi-lsp/src/code_action.rs
+++ b/crates/tombi-lsp/src/code_action.rs
@@ -54,6 +54,13 @@ pub fn dot_keys_to_inline_table_code_action(
         {
             let (key, value) = table.key_values().iter().next().unwrap();
 
+            // The value must be written once, after the key.
+            if value.range().start < parent_key_context.range.end
+                || !is_single_dotted_key_value(value)
+            {
+                return None;
+            }
+
             Some(CodeAction {
                 title: CodeActionRefactorRewriteName::DottedKeysToInlineTable.to_string(),
                 kind: Some(CodeActionKind::REFACTOR_REWRITE),
@@ -73,8 +80,8 @@ pub fn dot_keys_to_inline_table_code_action(
                                 .into_lsp(line_index),
                                 new_text: format!(
                                     "{} = {{ {}{}",
-                                    parent_key,
-                                    key.value,
+                                    tombi_toml_text::to_key_string(parent_key),
+                                    tombi_toml_text::to_key_string(&key.value),
                                     if table.kind() == TableKind::KeyValue {
                                         " = "
                                     } else {
@@ -122,7 +129,7 @@ pub fn inline_table_to_dot_keys_code_action(
                 && matches!(table.kind(), TableKind::InlineTable { has_comment: false }) =>
         {
             let node = get_ast_inline_table_node(root, table)?;
-            if node.has_inner_comments() {
+            if node.has_inner_comments() || node.key_values_with_comma().count() != 1 {
                 return None;
             }
             let (key, value) = table.key_values().iter().next()?;
@@ -165,6 +172,18 @@ pub fn inline_table_to_dot_keys_code_action(
     }
 }
 
+/// Whether the value comes from only one key value, however many dotted keys lead to it.
+fn is_single_dotted_key_value(value: &tombi_document_tree::Value) -> bool {
+    match value {
+        tombi_document_tree::Value::Table(table)
+            if !matches!(table.kind(), TableKind::InlineTable { .. }) =>
+        {
+            table.len() == 1 && table.values().all(is_single_dotted_key_value)
+        }
+        _ => true,
+    }
+}
+
 fn get_ast_inline_table_node(
     root: &tombi_ast::Root,
     table: &tombi_document_tree::Table,
diff --git a/crates/tombi-lsp/src/completion.rs b/crates/tombi-lsp/src/completion.rs
index 6167333..7beaa74 100644
--- a/crates/tombi-lsp/src/completion.rs
+++ b/crates/tombi-lsp/src/completion.rs
@@ -875,8 +875,15 @@ pub async fn get_completion_keys_with_context(
 ) -> Option<(Vec<tombi_document_tree::Key>, Vec<KeyContext>)> {
     let mut keys_vec = vec![];
     let mut key_contexts = vec![];
+    let mut inner_span: Option<tombi_text::Span> = None;
 
     for node in ancestors_at_position(root.syntax(), position) {
+        // Between two tokens there are the ancestors of both: follow only one path to the root.
+        if inner_span.is_some_and(|inner_span| !node.span().contains_span(inner_span)) {
+            continue;
+        }
+        inner_span = Some(node.span());
+
         if let Some(kv) = tombi_ast::KeyValue::cast(node.to_owned()) {
             let keys = kv.keys()?;
             let keys = if keys.range().contains(position) {
-- 
2.43.0


From 2178b82a02e2bd89d6d8b39ab6051961dd5840ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 41/62] fix: control characters and backslashes are escaped in
 basic strings

---
 crates/tombi-toml-text/src/lib.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 6ff3392..a4902ce 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -305,15 +305,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
@@ -345,7 +341,27 @@ pub fn to_literal_string(value: &str) -> String {
 }
 
 pub fn to_multi_line_basic_string(value: &str) -> String {
-    format!("\"\"\"\n{value}\"\"\"")
+    let mut result = String::with_capacity(value.len() + 7);
+    let mut quotes = 0;
+    result.push_str("\"\"\"\n");
+    for c in value.chars() {
+        quotes = if c == '"' { quotes + 1 } else { 0 };
+        match c {
+            '"' if quotes == 3 => {
+                quotes = 0;
+                result.push_str("\\\"");
+            }
+            '\\' => result.push_str("\\\\"),
+            '\n' | '\t' => result.push(c),
+            '\r' => result.push_str("\\r"),
+            c if c.is_control() => {
+                result.push_str(&format!("\\u{:04x}", c as u32));
+            }
+            c => result.push(c),
+        }
+    }
+    result.push_str("\"\"\"");
+    result
 }
 
 pub fn to_multi_line_literal_string(value: &str) -> String {
-- 
2.43.0


From 8b61c747d8a3ba34ecede24c1b7aa4371eb3918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 42/62] fix: cargo code actions quote keys and insert into the
 table of the header

---
 crates/tombi-document-tree/src/value/table.rs |   6 +-
 .../tombi-extension-cargo/src/code_action.rs  | 137 +++++++++++-------
 2 files changed, 87 insertions(+), 56 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index 935c66b..6e3e872 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -474,7 +474,11 @@ impl std::fmt::Display for Table {
                 .filter_map(|(k, v)| if let crate::Value::Incomplete { .. } = &v {
                     None
                 } else {
-                    Some(format!("{} = {}", k, v))
+                    Some(format!(
+                        "{} = {}",
+                        tombi_toml_text::to_key_string(&k.value),
+                        v
+                    ))
                 })
                 .join(", ")
         )
diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index 708bbce..cea75ae 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -1,3 +1,5 @@
+use itertools::Itertools;
+use tombi_ast::AstNode;
 use tombi_document_tree::{TableKind, Value, dig_accessors, dig_keys};
 use tombi_extension::CodeActionOrCommand;
 use tombi_schema_store::{Accessor, AccessorContext, matches_accessors};
@@ -633,7 +635,7 @@ fn inherit_dependency_from_workspace_code_action(
                                 end: version.range().end,
                             }
                             .into_lsp(line_index),
-                            new_text: format!("{crate_name}.workspace = true"),
+                            new_text: format!("{}.workspace = true", key_text(crate_name)),
                         })],
                     }])),
                     change_annotations: None,
@@ -699,11 +701,16 @@ fn render_inherited_dependency_inline_table(
     for (key, value) in dependency_table.key_values() {
         match key.value.as_str() {
             "version" | "workspace" => {}
-            _ => entries.push(format!("{} = {}", key.value, value)),
+            _ => entries.push(format!("{} = {}", key_text(&key.value), value)),
         }
     }
 
-    format!("{crate_name} = {{ {} }}", entries.join(", "))
+    format!("{} = {{ {} }}", key_text(crate_name), entries.join(", "))
+}
+
+/// The text of a key, quoted unless it is a bare key.
+fn key_text(key: &str) -> String {
+    Accessor::Key(key.to_string()).to_string()
 }
 
 /// Convert a dependency version to a table format.
@@ -785,8 +792,6 @@ fn get_ast_inline_table_from_document_tree(
     document_tree: &tombi_document_tree::DocumentTree,
     keys: &[&str],
 ) -> Option<tombi_ast::InlineTable> {
-    use tombi_ast::AstNode;
-
     // Get the value from document tree to find its range
     let (_, value) = tombi_document_tree::dig_keys(document_tree, keys)?;
 
@@ -809,6 +814,34 @@ fn get_ast_inline_table_from_document_tree(
     None
 }
 
+/// Get AST Table by the keys of its header
+fn get_ast_table(root: &tombi_ast::Root, keys: &[&str]) -> Option<tombi_ast::Table> {
+    root.syntax()
+        .children()
+        .filter_map(tombi_ast::Table::cast)
+        .find(|table| {
+            table.header().is_some_and(|header| {
+                header
+                    .keys()
+                    .map(|key| key.to_raw_text(tombi_config::TomlVersion::latest()))
+                    .eq(keys.iter().copied())
+            })
+        })
+}
+
+/// The start of the key value, with its leading comments
+fn key_value_start(key_value: &tombi_ast::KeyValue) -> Option<tombi_text::Position> {
+    match key_value.leading_comments().next() {
+        Some(comment) => Some(comment.syntax().range().start),
+        None => Some(key_value.keys()?.range().start),
+    }
+}
+
+fn first_key_text(key_value: &tombi_ast::KeyValue) -> Option<String> {
+    let key = key_value.keys()?.keys().next()?;
+    key.try_to_raw_text(tombi_config::TomlVersion::latest()).ok()
+}
+
 /// Calculate insertion position and text for inline table insertion with comma handling
 /// Uses tombi_ast API to properly handle commas and formatting
 fn calculate_inline_table_insertion(
@@ -816,8 +849,6 @@ fn calculate_inline_table_insertion(
     insertion_index: usize,
     new_entry_text: &str,
 ) -> Option<(tombi_text::Position, String)> {
-    use tombi_ast::AstNode;
-
     let key_values_with_comma: Vec<_> = ast_inline_table.key_values_with_comma().collect();
 
     if key_values_with_comma.is_empty() {
@@ -840,15 +871,6 @@ fn calculate_inline_table_insertion(
         };
     }
 
-    if insertion_index == 0 {
-        // Insert at the beginning
-        // { tokio = "1.0" } -> { serde = "1.0", tokio = "1.0" }
-        let (first_key_value, _) = key_values_with_comma.first()?;
-        let insert_pos = first_key_value.syntax().range().start;
-        let new_text = format!("{},\n", new_entry_text);
-        return Some((insert_pos, new_text));
-    }
-
     if insertion_index >= key_values_with_comma.len() {
         // Insert at the end
         // { serde = "1.0" } -> { serde = "1.0", tokio = "1.0" }
@@ -864,15 +886,11 @@ fn calculate_inline_table_insertion(
         }
     }
 
-    // Insert in the middle
+    // Insert before the entry at insertion_index
     // { serde = "1.0", tracing = "0.1" } -> { serde = "1.0", tokio = "1.0", tracing = "0.1" }
-    let (target_key_value, target_comma) = key_values_with_comma.get(insertion_index)?;
-    let insert_pos = if let Some(target_comma) = target_comma {
-        target_comma.range().end
-    } else {
-        target_key_value.syntax().range().end
-    };
-    let new_text = format!("\n{},\n", new_entry_text);
+    let (next_key_value, _) = key_values_with_comma.get(insertion_index)?;
+    let insert_pos = key_value_start(next_key_value)?;
+    let new_text = format!("{}, ", new_entry_text);
     Some((insert_pos, new_text))
 }
 
@@ -1034,39 +1052,42 @@ fn generate_workspace_dependencies_edit(
         return None;
     };
 
-    // Get existing crate names and calculate insertion index
-    let existing_crates: Vec<&str> = table.keys().map(|key| key.value.as_str()).collect();
-    let insertion_index = calculate_insertion_index(&existing_crates, crate_name);
-    let crate_value_text = crate_value.to_string();
+    let new_entry_text = format!("{} = {}", key_text(crate_name), crate_value);
 
     // Find insertion position in the actual table
     let (insertion_range, new_text) = if table.kind() == TableKind::Table {
-        let insertion_range = if insertion_index == 0 {
-            if table.is_empty() {
-                tombi_text::Range::at(table.range().end)
-            } else {
-                let range = table.keys().next().unwrap().range();
-                tombi_text::Range::at(range.start)
-            }
-        } else if insertion_index >= existing_crates.len() {
-            // Insert at the end of the table
-            let range = table.range();
-            tombi_text::Range::at(range.end)
+        let ast_table = get_ast_table(workspace_root, &["workspace", "dependencies"])?;
+
+        // Only the key values under the header: the sub tables
+        // (e.g. `[workspace.dependencies.serde]`) have headers of their own.
+        let key_values: Vec<_> = ast_table.key_values().collect();
+        let existing_crates: Vec<String> = key_values
+            .iter()
+            .map(|key_value| first_key_text(key_value).unwrap_or_default())
+            .collect();
+        let insertion_index = calculate_insertion_index(
+            &existing_crates.iter().map(String::as_str).collect_vec(),
+            crate_name,
+        );
+
+        if let Some(next_key_value) = key_values.get(insertion_index) {
+            (
+                tombi_text::Range::at(key_value_start(next_key_value)?),
+                format!("{new_entry_text}\n"),
+            )
         } else {
-            // Insert before the crate at insertion_index
-            if let Some((target_key, _)) = table.get_key_value(existing_crates[insertion_index]) {
-                let range = target_key.range();
-                tombi_text::Range::at(range.start)
+            let previous_end = if let Some(last_key_value) = key_values.last() {
+                last_key_value.syntax().range().end
+            } else if let Some(comment) = ast_table.header_trailing_comment() {
+                comment.syntax().range().end
             } else {
-                let range = table.range();
-                tombi_text::Range::at(range.end)
-            }
-        };
-
-        (
-            insertion_range,
-            format!("{crate_name} = {crate_value_text}\n"),
-        )
+                ast_table.bracket_end()?.range().end
+            };
+            (
+                tombi_text::Range::at(previous_end),
+                format!("\n{new_entry_text}"),
+            )
+        }
     } else if matches!(table.kind(), TableKind::InlineTable { .. }) {
         // Handle InlineTable case using AST for accurate comma handling
         let ast_inline_table = get_ast_inline_table_from_document_tree(
@@ -1075,7 +1096,14 @@ fn generate_workspace_dependencies_edit(
             &["workspace", "dependencies"],
         )?;
 
-        let new_entry_text = format!("{crate_name} = {crate_value_text}");
+        let existing_crates: Vec<String> = ast_inline_table
+            .key_values()
+            .map(|key_value| first_key_text(&key_value).unwrap_or_default())
+            .collect();
+        let insertion_index = calculate_insertion_index(
+            &existing_crates.iter().map(String::as_str).collect_vec(),
+            crate_name,
+        );
         let (insertion_pos, new_text) =
             calculate_inline_table_insertion(&ast_inline_table, insertion_index, &new_entry_text)?;
 
@@ -1104,7 +1132,7 @@ fn generate_member_workspace_true_edit(
     match crate_value {
         tombi_document_tree::Value::String(_) => Some(TextEdit {
             range: (crate_key_context.range + crate_value.symbol_range()).into_lsp(line_index),
-            new_text: format!("{crate_name}.workspace = true"),
+            new_text: format!("{}.workspace = true", key_text(crate_name)),
         }),
         tombi_document_tree::Value::Table(table)
             if matches!(table.kind(), TableKind::InlineTable { .. }) =>
@@ -1129,7 +1157,6 @@ fn generate_member_workspace_true_edit(
 #[cfg(test)]
 mod tests {
     use super::*;
-    use tombi_ast::AstNode;
     use tombi_document_tree::{TryIntoDocumentTree, dig_keys};
     use tombi_schema_store::{AccessorContext, AccessorKeyKind, KeyContext};
     use tombi_text::{EncodingKind, LineIndex, Position, Range, RelativePosition};
-- 
2.43.0


From f239b68c8d663b7552dc65622b4e24576642b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 43/62] fix: pyproject code action inserts the dependency
 between the elements of the array

---
 crates/tombi-ast/src/impls/array.rs           | 15 ++++------
 .../src/code_action.rs                        | 29 ++++++++-----------
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array.rs b/crates/tombi-ast/src/impls/array.rs
index c120747..3dbb0ea 100644
--- a/crates/tombi-ast/src/impls/array.rs
+++ b/crates/tombi-ast/src/impls/array.rs
@@ -83,22 +83,17 @@ impl crate::Array {
 
     #[inline]
     pub fn value_or_key_values(&self) -> impl Iterator<Item = crate::ValueOrKeyValue> {
-        support::node::children(self.syntax())
+        self.value_or_key_values_with_comma()
+            .map(|(value_or_key_value, _)| value_or_key_value)
     }
 
     #[inline]
     pub fn value_or_key_values_with_comma(
         &self,
     ) -> impl Iterator<Item = (crate::ValueOrKeyValue, Option<crate::Comma>)> {
-        self.value_or_key_values()
-            .zip_longest(support::node::children::<crate::Comma>(self.syntax()))
-            .filter_map(|value_or_key_with_comma| match value_or_key_with_comma {
-                itertools::EitherOrBoth::Both(value_or_key, comma) => {
-                    Some((value_or_key, Some(comma)))
-                }
-                itertools::EitherOrBoth::Left(value_or_key) => Some((value_or_key, None)),
-                itertools::EitherOrBoth::Right(_) => None,
-            })
+        self.value_with_comma_groups()
+            .filter_map(DanglingCommentGroupOr::into_item_group)
+            .flat_map(ValueWithCommaGroup::into_value_or_key_values_with_comma)
     }
 
     #[inline]
diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index 863ab67..e3f0729 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -435,6 +435,7 @@ fn get_ast_array_from_document_tree(
 /// Uses tombi_ast API to properly handle commas and formatting
 fn calculate_array_insertion(
     ast_array: &tombi_ast::Array,
+    value_ranges: &[tombi_text::Range],
     insertion_index: usize,
     new_element: &tombi_document_tree::String,
 ) -> Option<(tombi_text::Position, String)> {
@@ -459,14 +460,6 @@ fn calculate_array_insertion(
         };
     }
 
-    if insertion_index == 0 {
-        // Insert at the beginning
-        let (first_value, _) = values_with_comma.first()?;
-        let insert_pos = first_value.syntax().range().start;
-        let new_text = format!("{},\n", new_element);
-        return Some((insert_pos, new_text));
-    }
-
     if insertion_index >= values_with_comma.len() {
         // Insert at the end
         let (last_value, last_comma) = values_with_comma.last()?;
@@ -481,14 +474,13 @@ fn calculate_array_insertion(
         }
     }
 
-    // Insert in the middle
-    let (target_value, target_comma) = values_with_comma.get(insertion_index)?;
-    let insert_pos = if let Some(target_comma) = target_comma {
-        target_comma.range().end
-    } else {
-        target_value.syntax().range().end
+    // Insert before the value at insertion_index
+    let (next_value, _) = values_with_comma.get(insertion_index)?;
+    let insert_pos = match next_value.leading_comments().next() {
+        Some(comment) => comment.syntax().range().start,
+        None => value_ranges.get(insertion_index)?.start,
     };
-    let new_text = format!("\n{},\n", new_element);
+    let new_text = format!("{},\n", new_element);
     Some((insert_pos, new_text))
 }
 
@@ -613,15 +605,16 @@ fn generate_workspace_dependency_edit(
         &workspace_accessors,
     )?;
 
-    // Get existing package names
+    // Get existing package names (one for each element, to keep the indices of the array)
     let existing_package_names: Vec<String> = deps_doc_array
         .iter()
-        .filter_map(|dep| {
+        .map(|dep| {
             if let tombi_document_tree::Value::String(dep_str) = dep {
                 parse_requirement(dep_str.value()).map(|req| req.name.to_string())
             } else {
                 None
             }
+            .unwrap_or_default()
         })
         .collect();
 
@@ -634,8 +627,10 @@ fn generate_workspace_dependency_edit(
     let insertion_index = calculate_insertion_index(&existing_packages, &package_name);
 
     // Determine insertion position and comma handling using AST
+    let value_ranges: Vec<_> = deps_doc_array.iter().map(|dep| dep.range()).collect();
     let (insertion_range, new_text) = calculate_array_insertion(
         &deps_ast_array,
+        &value_ranges,
         insertion_index,
         dependency_requirement.dependency,
     )?;
-- 
2.43.0


From b6962b785de7cf8e35f3b4f139b3877a3ce7a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 44/62] fix: pyproject dependency without version keeps its own
 extras and marker

---
 .../src/code_action.rs                        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index e3f0729..0082626 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -316,6 +316,21 @@ fn format_dependency_without_version(requirement: &Requirement<VerbatimUrl>) ->
     }
 }
 
+/// The text of the dependency without version, which keeps its extras and its marker.
+fn versionless_dependency_text(
+    requirement: &Requirement<VerbatimUrl>,
+    dependency: &tombi_document_tree::String,
+) -> String {
+    let mut text = format_dependency_without_version(requirement);
+    if requirement.marker.contents().is_some()
+        && let Some((_, marker)) = dependency.value().rsplit_once(';')
+    {
+        text.push_str("; ");
+        text.push_str(marker.trim());
+    }
+    format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
 fn format_exact_pinned_dependency(latest_version: &str) -> String {
     let Ok(version) = latest_version.parse::<Version>() else {
         return format!("=={latest_version}");
@@ -649,11 +664,9 @@ fn generate_member_dependency_edit(
     }: &DependencyRequirement,
     line_index: &tombi_text::LineIndex,
 ) -> Option<TextEdit> {
-    let new_dep_str = format_dependency_without_version(requirement);
-
     Some(TextEdit {
         range: dependency.range().into_lsp(line_index),
-        new_text: format!("\"{}\"", new_dep_str),
+        new_text: versionless_dependency_text(requirement, dependency),
     })
 }
 
@@ -684,10 +697,7 @@ fn use_workspace_dependency_code_action(
 
     let workspace_dependency_requirements =
         collect_dependency_requirements_from_document_tree(workspace_document_tree);
-    let DependencyRequirement {
-        requirement: workspace_requirement,
-        ..
-    } = workspace_dependency_requirements.iter().find(
+    workspace_dependency_requirements.iter().find(
         |DependencyRequirement {
              requirement: workspace_requirement,
              ..
@@ -695,7 +705,7 @@ fn use_workspace_dependency_code_action(
     )?;
 
     // Format dependency without version (preserving extras)
-    let new_dep_str = format_dependency_without_version(workspace_requirement);
+    let new_text = versionless_dependency_text(&requirement, dep_str);
 
     // Use the string's range for replacement
     let range = dep_str.range().into_lsp(line_index);
@@ -711,10 +721,7 @@ fn use_workspace_dependency_code_action(
                     uri: text_document_uri.to_owned().into(),
                     version: None,
                 },
-                edits: vec![OneOf::Left(TextEdit {
-                    range,
-                    new_text: format!("\"{}\"", new_dep_str),
-                })],
+                edits: vec![OneOf::Left(TextEdit { range, new_text })],
             }])),
             change_annotations: None,
         }),
-- 
2.43.0


From 7a7bb2b6796a22105b8c81d4da4ee153f3b759d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 45/62] fix: version sort compares numbers of any length

---
 crates/tombi-version-sort/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-version-sort/src/lib.rs b/crates/tombi-version-sort/src/lib.rs
index 110a299..f9f01cd 100644
--- a/crates/tombi-version-sort/src/lib.rs
+++ b/crates/tombi-version-sort/src/lib.rs
@@ -41,7 +41,8 @@ impl<'a> VersionChunkIter<'a> {
         };
 
         let zeros = source.chars().take_while(|c| *c == '0').count();
-        let value = source.parse::<usize>().ok()?;
+        // Too many digits for `usize` are told apart by `source`.
+        let value = source.parse::<usize>().unwrap_or(usize::MAX);
 
         Some(VersionChunk::Number {
             value,
@@ -219,14 +220,14 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
                     VersionChunk::Number {
                         value: va,
                         zeros: lza,
-                        ..
+                        source: ca,
                     },
                     VersionChunk::Number {
                         value: vb,
                         zeros: lzb,
-                        ..
+                        source: cb,
                     },
-                ) => match va.cmp(&vb) {
+                ) => match va.cmp(&vb).then_with(|| cmp_digits(&ca[lza..], &cb[lzb..])) {
                     std::cmp::Ordering::Equal => {
                         if lza == lzb {
                             continue;
@@ -252,6 +253,11 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
     }
 }
 
+/// Compares two digit sequences without leading zeros by their numeric value.
+fn cmp_digits(a: &str, b: &str) -> std::cmp::Ordering {
+    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From a15d075d700e3139c4489c2d52fdee900e9343ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 46/62] fix: blank lines between the groups of an array or
 inline table stay

---
 crates/tombi-ast/src/impls/array.rs        | 10 ++++++++++
 crates/tombi-ast/src/impls/inline_table.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array.rs b/crates/tombi-ast/src/impls/array.rs
index 3dbb0ea..2f4fcc0 100644
--- a/crates/tombi-ast/src/impls/array.rs
+++ b/crates/tombi-ast/src/impls/array.rs
@@ -101,6 +101,16 @@ impl crate::Array {
         self.has_last_value_trailing_comma()
             || self.has_multiline_values(toml_version)
             || self.has_inner_comments()
+            || self.has_multiple_groups()
+    }
+
+    /// Whether blank lines divide the values into groups, which a single line cannot show.
+    #[inline]
+    pub fn has_multiple_groups(&self) -> bool {
+        self.value_with_comma_groups()
+            .filter(|group| matches!(group, DanglingCommentGroupOr::ItemGroup(_)))
+            .nth(1)
+            .is_some()
     }
 
     #[inline]
diff --git a/crates/tombi-ast/src/impls/inline_table.rs b/crates/tombi-ast/src/impls/inline_table.rs
index 11592e5..58d30e5 100644
--- a/crates/tombi-ast/src/impls/inline_table.rs
+++ b/crates/tombi-ast/src/impls/inline_table.rs
@@ -96,6 +96,16 @@ impl crate::InlineTable {
         self.has_last_key_value_trailing_comma()
             || self.has_multiline_values(toml_version)
             || self.has_inner_comments()
+            || self.has_multiple_groups()
+    }
+
+    /// Whether blank lines divide the key values into groups, which a single line cannot show.
+    #[inline]
+    pub fn has_multiple_groups(&self) -> bool {
+        self.key_value_with_comma_groups()
+            .filter(|group| matches!(group, DanglingCommentGroupOr::ItemGroup(_)))
+            .nth(1)
+            .is_some()
     }
 
     #[inline]
-- 
2.43.0


From 026ddde4bb71ac86861c8a169f80b41875af36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 47/62] fix: a value with warnings is sorted by the schema that
 it satisfies

---
 crates/tombi-ast-editor/src/edit.rs           | 12 +++++-----
 crates/tombi-ast-editor/src/edit/array.rs     | 12 +++++-----
 .../src/rule/array_values_order.rs            | 24 +++++++++----------
 .../src/rule/table_keys_order.rs              | 12 +++++-----
 crates/tombi-validator/src/lib.rs             |  2 +-
 crates/tombi-validator/src/validate.rs        |  4 +++-
 6 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit.rs b/crates/tombi-ast-editor/src/edit.rs
index 9cb9bf9..2061e35 100644
--- a/crates/tombi-ast-editor/src/edit.rs
+++ b/crates/tombi-ast-editor/src/edit.rs
@@ -5,7 +5,7 @@ use tombi_future::{BoxFuture, Boxable};
 use tombi_schema_store::{
     Accessor, AllOfSchema, AnyOfSchema, OneOfSchema, SchemaAccessor, SchemaView,
 };
-use tombi_validator::Validate;
+use tombi_validator::{Validate, is_assertion_success};
 
 mod array;
 mod array_of_table;
@@ -76,11 +76,11 @@ fn edit_recursive<'a: 'b, 'b>(
                     };
 
                     for current_schema in resolved_schemas {
-                        if node
-                            .validate(accessors.as_ref(), Some(&current_schema), schema_context)
-                            .await
-                            .is_ok()
-                        {
+                        if is_assertion_success(
+                            &node
+                                .validate(accessors.as_ref(), Some(&current_schema), schema_context)
+                                .await,
+                        ) {
                             return edit_recursive(
                                 node,
                                 edit_fn,
diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index 2bdaf51..108b9af 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -4,7 +4,7 @@ use tombi_comment_directive::value::{ArrayCommonFormatRules, ArrayCommonLintRule
 use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_future::{BoxFuture, Boxable};
 use tombi_schema_store::{Accessor, AllOfSchema, AnyOfSchema, OneOfSchema, SchemaView};
-use tombi_validator::Validate;
+use tombi_validator::{Validate, is_assertion_success};
 
 use crate::rule::{array_comma_trailing_comment, array_values_order};
 
@@ -164,11 +164,11 @@ fn resolve_array_item_edit_context<'a: 'b, 'b>(
                     .await
                     {
                         for current_schema in resolved_schemas {
-                            if node
-                                .validate(accessors, Some(&current_schema), schema_context)
-                                .await
-                                .is_ok()
-                            {
+                            if is_assertion_success(
+                                &node
+                                    .validate(accessors, Some(&current_schema), schema_context)
+                                    .await,
+                            ) {
                                 return resolve_array_item_edit_context(
                                     node,
                                     accessors,
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 0a01378..969d7be 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -17,7 +17,7 @@ use tombi_schema_store::{
     TableSchema, XTombiArrayValuesOrder,
 };
 use tombi_syntax::SyntaxElement;
-use tombi_validator::Validate;
+use tombi_validator::{Validate, is_assertion_success};
 use tombi_x_keyword::{ArrayValuesOrder, ArrayValuesOrderBy, ArrayValuesOrderGroup};
 
 use boolean::create_boolean_sortable_values;
@@ -241,12 +241,12 @@ async fn get_sorted_values_order_groups<'a>(
                 let mut i = 0;
                 while i < values_with_comma.len() {
                     // check if the value is compatible with the schema
-                    if value_nodes[i]
-                        .1
-                        .validate(&[], Some(current_schema), schema_context)
-                        .await
-                        .is_ok()
-                    {
+                    if is_assertion_success(
+                        &value_nodes[i]
+                            .1
+                            .validate(&[], Some(current_schema), schema_context)
+                            .await,
+                    ) {
                         group_values_with_comma.push(values_with_comma.remove(i));
                         group_value_nodes.push(value_nodes.remove(i));
                     } else {
@@ -339,11 +339,11 @@ fn try_array_values_order_by_from_item_schema<'a: 'b, 'b>(
                     .await
                     {
                         for current_schema in &resolved_schemas {
-                            if table_node
-                                .validate(accessors, Some(current_schema), schema_context)
-                                .await
-                                .is_ok()
-                            {
+                            if is_assertion_success(
+                                &table_node
+                                    .validate(accessors, Some(current_schema), schema_context)
+                                    .await,
+                            ) {
                                 return try_array_values_order_by_from_item_schema(
                                     table_node,
                                     accessors,
diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index 104b541..ef33038 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -11,7 +11,7 @@ use tombi_schema_store::{
     TableSchema, XTombiTableKeysOrder,
 };
 use tombi_syntax::SyntaxElement;
-use tombi_validator::Validate;
+use tombi_validator::{Validate, is_assertion_success};
 use tombi_x_keyword::{TableKeysOrder, TableKeysOrderGroupKind};
 
 use crate::rule::TableOrderOverrides;
@@ -147,11 +147,11 @@ where
                     .await
                     {
                         for current_schema in &resolved_schemas {
-                            if value
-                                .validate(accessors, Some(current_schema), schema_context)
-                                .await
-                                .is_ok()
-                            {
+                            if is_assertion_success(
+                                &value
+                                    .validate(accessors, Some(current_schema), schema_context)
+                                    .await,
+                            ) {
                                 let keys_order = if order.is_some() {
                                     order
                                 } else if schema_context
diff --git a/crates/tombi-validator/src/lib.rs b/crates/tombi-validator/src/lib.rs
index cfc46d2..6ccc03b 100644
--- a/crates/tombi-validator/src/lib.rs
+++ b/crates/tombi-validator/src/lib.rs
@@ -11,4 +11,4 @@ pub use diagnostic::{Diagnostic, DiagnosticKind};
 pub use invalid::Invalid;
 pub use match_evidence::{MatchEvidence, MatchScore};
 pub use valid::Valid;
-pub use validate::{Validate, validate};
+pub use validate::{Validate, is_assertion_success, validate};
diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index 8129cf4..c33d363 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -506,7 +506,9 @@ pub(crate) fn schema_resolution_diagnostic(
     .then(|| error.to_warning_diagnostic(range))
 }
 
-pub(crate) fn is_assertion_success(result: &Result<crate::Valid, crate::Invalid>) -> bool {
+/// Whether the value satisfies the schema. Warnings and other diagnostics, which are no failed
+/// assertions, do not count.
+pub fn is_assertion_success(result: &Result<crate::Valid, crate::Invalid>) -> bool {
     match result {
         Ok(_) => true,
         Err(error) => !error.assertion_failed,
-- 
2.43.0


From 1fdf89a0fb5cebd6a0869ab16cc3d8dbf53acbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 48/62] fix: sub-tables below quoted keys and pattern
 properties are sorted by their schema

---
 .../src/rule/table_keys_order.rs              | 71 ++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index ef33038..06d396a 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -238,7 +238,8 @@ where
                 };
 
                 for (accessor, targets) in sorted_targets {
-                    if let Some(value) = table.get(&accessor.to_string())
+                    if let Some(key) = accessor.as_key()
+                        && let Some(value) = table.get(key)
                         && let (Some(current_schema), Some(table_schema)) =
                             (current_schema, table_schema)
                     {
@@ -271,6 +272,32 @@ where
                             );
                             continue;
                         }
+                        if let Some(current_schema) = resolve_matching_pattern_schema(
+                            table_schema,
+                            key,
+                            current_schema,
+                            schema_context,
+                        )
+                        .await
+                        {
+                            results.extend(
+                                get_sorted_accessors(
+                                    value,
+                                    &accessors
+                                        .iter()
+                                        .cloned()
+                                        .chain(std::iter::once(accessor))
+                                        .collect_vec(),
+                                    targets,
+                                    Some(&current_schema),
+                                    schema_context,
+                                    order,
+                                    table_order_overrides,
+                                )
+                                .await?,
+                            );
+                            continue;
+                        }
                         if let Some((_, referable_schema)) =
                             &table_schema.additional_property_schema
                             && let Ok(Some(current_schema)) =
@@ -398,6 +425,48 @@ where
     .boxed()
 }
 
+/// The schema of the first `patternProperties` pattern that matches the key.
+async fn resolve_matching_pattern_schema(
+    table_schema: &TableSchema,
+    key: &str,
+    current_schema: &CurrentSchema<'_>,
+    schema_context: &SchemaContext<'_>,
+) -> Option<CurrentSchema<'static>> {
+    let pattern_keys = table_schema
+        .pattern_properties
+        .as_ref()?
+        .read()
+        .await
+        .keys()
+        .cloned()
+        .collect_vec();
+
+    for pattern_key in pattern_keys {
+        let Ok(pattern) = tombi_regex::Regex::new(&pattern_key) else {
+            log::warn!("invalid regex pattern property: {}", pattern_key);
+            continue;
+        };
+        if !pattern.is_match(key) {
+            continue;
+        }
+        if let Ok(Some(current_schema)) = table_schema
+            .resolve_pattern_property_schema(
+                &pattern_key,
+                current_schema.schema_uri.clone(),
+                current_schema.definitions.clone(),
+                current_schema.strict,
+                schema_context.store,
+            )
+            .await
+            .inspect_err(|err| log::warn!("{err}"))
+        {
+            return Some(current_schema);
+        }
+    }
+
+    None
+}
+
 #[allow(clippy::type_complexity)]
 async fn sort_targets<T>(
     mut targets: Vec<(Accessor, Vec<(Vec<Accessor>, T)>)>,
-- 
2.43.0


From ef98d76cf960ffbd69f1e9a2588283c5413a6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 49/62] fix: the comment between a value and its comma survives
 sorting it to the end

---
 crates/tombi-ast-editor/src/rule/array_values_order.rs      | 2 ++
 crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 969d7be..bf9955b 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -295,7 +295,9 @@ fn sort_array_values(
             .into_iter()
             .map(|(value, comma)| (value, Some(comma)))
             .collect_vec(),
+        // Equal values keep their places, however often they are sorted.
         ArrayValuesOrder::Descending => sortable_values
+            .reversed()
             .sorted()
             .into_iter()
             .rev()
diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 0dee382..cce6dbd 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -69,11 +69,13 @@ pub async fn inline_table_keys_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_key_values_with_comma.last_mut()
+    if let Some((key_value, comma)) = sorted_key_values_with_comma.last_mut()
         && !is_last_comma
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
+        // A comment between a value and its comma moves behind the comma, which it still needs.
+        && key_value.trailing_comment().is_none()
     {
         *comma = None;
     }
-- 
2.43.0


From 979b71fe3c8545da62763d33a69e4e5362ee3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 50/62] fix: sorting in descending order keeps equal values in
 place

---
 .../src/rule/array_values_order.rs              | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index bf9955b..ece9d3a 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -128,11 +128,13 @@ pub async fn array_values_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_values_with_comma.last_mut()
+    if let Some((value, comma)) = sorted_values_with_comma.last_mut()
         && !is_last_comma
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
+        // A comment between a value and its comma moves behind the comma, which it still needs.
+        && (value.trailing_comment().is_none() || new_last_comma.syntax().parent().is_none())
     {
         *comma = None;
     }
@@ -636,6 +638,19 @@ impl SortableValues {
         Ok(sortable_values)
     }
 
+    fn reversed(mut self) -> Self {
+        match &mut self {
+            Self::Boolean(values) => values.reverse(),
+            Self::Integer(values) => values.reverse(),
+            Self::String(values)
+            | Self::OffsetDateTime(values)
+            | Self::LocalDateTime(values)
+            | Self::LocalDate(values)
+            | Self::LocalTime(values) => values.reverse(),
+        }
+        self
+    }
+
     pub fn sorted(self) -> Vec<(tombi_ast::Value, tombi_ast::Comma)> {
         match self {
             Self::Boolean(mut sortable_values) => {
-- 
2.43.0


From f0c5020a56ce7f19bf5ba2a78d9810285940dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 51/62] fix: positions in an edited tree add the outer offset
 before the inner one

---
 crates/tombi-rg-tree/src/cursor.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-rg-tree/src/cursor.rs b/crates/tombi-rg-tree/src/cursor.rs
index 3cfb2d1..7047115 100644
--- a/crates/tombi-rg-tree/src/cursor.rs
+++ b/crates/tombi-rg-tree/src/cursor.rs
@@ -398,21 +398,23 @@ impl NodeData {
 
     #[cold]
     fn position_mut(&self) -> tombi_text::Position {
-        let mut res = Default::default();
+        let mut res = tombi_text::RelativePosition::default();
 
         let mut node = self;
         while let Some(parent) = node.parent() {
             let green = parent.green().into_node().unwrap();
-            res += green
+            // Adding positions does not commute: the outer one comes first.
+            res = green
                 .children()
                 .raw
                 .nth(node.index() as usize)
                 .unwrap()
-                .relative_position();
+                .relative_position()
+                + res;
             node = parent;
         }
 
-        res
+        tombi_text::Position::default() + res
     }
 
     #[inline]
-- 
2.43.0


From 0d075971fae43bfd6cdd3107807787de57f21420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 52/62] fix: count the indentation once when deciding if a
 value fits in the line width

---
 crates/tombi-formatter/src/format/value/array.rs     |  2 +-
 .../tombi-formatter/src/format/value/inline_table.rs |  2 +-
 crates/tombi-formatter/src/formatter.rs              | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index d969cf0..21c67e1 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -30,7 +30,7 @@ pub(crate) fn exceeds_line_width(
     node: &tombi_ast::Array,
     f: &mut crate::Formatter,
 ) -> Result<bool, std::fmt::Error> {
-    let mut length = f.current_line_width();
+    let mut length = f.next_value_start_width();
     length += 2; // '[' and ']'
     length += f.array_bracket_space().len() * 2; // Space after '[' and before ']'
     let mut first = true;
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index 1415e1e..35d3bfb 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -35,7 +35,7 @@ pub(crate) fn exceeds_line_width(
         return Ok(false);
     }
 
-    let mut length = f.current_line_width();
+    let mut length = f.next_value_start_width();
     length += 2; // '{' and '}'
     length += f.inline_table_brace_space().len() * 2;
     let mut first = true;
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 8daea5b..27524d6 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -205,8 +205,10 @@ impl<'a> Formatter<'a> {
         node: &T,
     ) -> Result<String, std::fmt::Error> {
         let old_mode = std::mem::replace(&mut self.single_line_mode, true);
+        let old_skip = std::mem::replace(&mut self.skip_indent, true);
         let result = self.format_to_string(node);
         self.single_line_mode = old_mode;
+        self.skip_indent = old_skip;
         result
     }
 
@@ -434,6 +436,16 @@ impl<'a> Formatter<'a> {
         self.indent_depth = 0;
     }
 
+    #[inline]
+    pub(crate) fn next_value_start_width(&self) -> usize {
+        let indent_width = if self.skip_indent {
+            0
+        } else {
+            self.indent(self.indent_depth).len()
+        };
+        self.current_line_width() + indent_width
+    }
+
     #[inline]
     pub(crate) fn current_line_width(&self) -> usize {
         self.buf
-- 
2.43.0


From dae176c0e32cec894c0e84251291777c939c5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 53/62] fix: count the space before a trailing comment once in
 the line width

---
 crates/tombi-formatter/src/format/value/array.rs        | 1 -
 crates/tombi-formatter/src/format/value/inline_table.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index 21c67e1..1854844 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -72,7 +72,6 @@ pub(crate) fn exceeds_line_width(
     }
 
     if let Some(trailing_comment) = node.trailing_comment() {
-        length += f.trailing_comment_space().len();
         length += f
             .format_to_string(&trailing_comment)?
             .graphemes(true)
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index 35d3bfb..e1bcdba 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -79,7 +79,6 @@ pub(crate) fn exceeds_line_width(
     }
 
     if let Some(trailing_comment) = node.trailing_comment() {
-        length += f.trailing_comment_space().len();
         length += f
             .format_to_string(&trailing_comment)?
             .graphemes(true)
-- 
2.43.0


From d2c7c1538145e7f08ee9cd262d0f0168d346a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 54/62] fix: tables are out of order by the keys of their
 headers, not by how those are written

---
 .../src/rule/tables_out_of_order.rs           | 29 ++++---------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/crates/tombi-linter/src/rule/tables_out_of_order.rs b/crates/tombi-linter/src/rule/tables_out_of_order.rs
index 8d260d1..959adf1 100644
--- a/crates/tombi-linter/src/rule/tables_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/tables_out_of_order.rs
@@ -45,15 +45,14 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
             return;
         }
 
-        let source_text = l.source_text();
-        let mut table_positions: Vec<(usize, Vec<&str>, tombi_text::Range)> = Vec::new();
+        let mut table_positions: Vec<(usize, Vec<String>, tombi_text::Range)> = Vec::new();
 
         // Collect all table definitions
         for (position, item) in node.items().enumerate() {
             match item {
                 tombi_ast::RootItem::Table(table) => {
                     if let Some(header) = table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, l);
                         if !key_parts.is_empty() {
                             table_positions.push((position, key_parts, table.syntax().range()));
                         }
@@ -61,7 +60,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
                 }
                 tombi_ast::RootItem::ArrayOfTable(array_table) => {
                     if let Some(header) = array_table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, l);
                         if !key_parts.is_empty() {
                             table_positions.push((
                                 position,
@@ -84,7 +83,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
         for (pos, keys, range) in &table_positions {
             if !keys.is_empty() {
                 prefix_groups
-                    .entry(keys[0])
+                    .entry(keys[0].as_str())
                     .or_default()
                     .push((*pos, *range));
             }
@@ -121,25 +120,9 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
     }
 }
 
-fn extract_key_parts<'a>(keys: &tombi_ast::Keys, source_text: &'a str) -> Vec<&'a str> {
+fn extract_key_parts(keys: &tombi_ast::Keys, l: &crate::Linter<'_>) -> Vec<String> {
     keys.keys()
-        .map(|key| match key {
-            tombi_ast::Key::BareKey(k) => &source_text[k.syntax().span()],
-            tombi_ast::Key::BasicString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-            tombi_ast::Key::LiteralString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-        })
+        .filter_map(|key| key.try_to_raw_text(l.toml_version()).ok())
         .collect()
 }
 
-- 
2.43.0


From e74d5242669adcad469b0bcd8092971e0d2167fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 55/62] fix: a disabled table-key-required is unused only when
 every required key is there

---
 crates/tombi-validator/src/validate/table.rs | 31 ++++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 6f14457..a315add 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -557,19 +557,6 @@ async fn validate_table(
                 }
                 .push_diagnostic_with_level(level, &mut total_diagnostics);
             } else {
-                if table_rules
-                    .map(|rules| &rules.value)
-                    .and_then(|rules| rules.table_key_required.as_ref())
-                    .and_then(|rules| rules.disabled)
-                    == Some(true)
-                {
-                    handle_unused_noqa(
-                        &mut total_diagnostics,
-                        table_value.comment_directives(),
-                        table_rules.as_ref().map(|rules| &rules.common),
-                        "table-key-required",
-                    );
-                }
                 let path = accessors
                     .iter()
                     .cloned()
@@ -578,6 +565,24 @@ async fn validate_table(
                 match_evidence.mark_required(path);
             }
         }
+
+        if required
+            .iter()
+            .all(|required_key| keys.contains(&required_key))
+            && !required.is_empty()
+            && table_rules
+                .map(|rules| &rules.value)
+                .and_then(|rules| rules.table_key_required.as_ref())
+                .and_then(|rules| rules.disabled)
+                == Some(true)
+        {
+            handle_unused_noqa(
+                &mut total_diagnostics,
+                table_value.comment_directives(),
+                table_rules.as_ref().map(|rules| &rules.common),
+                "table-key-required",
+            );
+        }
     }
 
     if let Some(max_properties) = table_schema.max_properties
-- 
2.43.0


From 00fb1aeb311046157036177bd83a0d7aa537120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 56/62] fix: a directive at the end of a nested array's line
 applies to that array

---
 crates/tombi-validator/src/comment_directive/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-validator/src/comment_directive/value.rs b/crates/tombi-validator/src/comment_directive/value.rs
index 15c1b0e..1fe39ce 100644
--- a/crates/tombi-validator/src/comment_directive/value.rs
+++ b/crates/tombi-validator/src/comment_directive/value.rs
@@ -74,7 +74,7 @@ pub async fn get_tombi_array_comment_directive_and_diagnostics(
                 let (rules, diagnostics) = get_tombi_value_rules_and_diagnostics::<
                     ArrayCommonFormatRules,
                     ArrayCommonLintRules,
-                >(array.body_comment_directives())
+                >(array.comment_directives())
                 .await;
 
                 total_diagnostics.extend(diagnostics);
-- 
2.43.0


From 9d44e6c4fe7ca3d22242585aee5a3f3b5b326a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 57/62] fix: the directives of a key apply to the dotted keys
 of its inline table when linting too

---
 .../src/rule/dotted_keys_out_of_order.rs            | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index 2a357a5..052b60e 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -1,4 +1,5 @@
 use crate::Rule;
+use tombi_ast::AstNode;
 use tombi_comment_directive::value::{TableCommonFormatRules, TableCommonLintRules};
 use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_config::SeverityLevel;
@@ -26,7 +27,17 @@ impl Rule<tombi_ast::ArrayOfTable> for DottedKeysOutOfOrderRule {
 
 impl Rule<tombi_ast::InlineTable> for DottedKeysOutOfOrderRule {
     async fn check(table: &tombi_ast::InlineTable, l: &mut crate::Linter<'_>) {
-        check_dotted_keys_out_of_order(table.key_values(), table.comment_directives(), l).await;
+        let key_value = table.syntax().parent().and_then(tombi_ast::KeyValue::cast);
+
+        check_dotted_keys_out_of_order(
+            table.key_values(),
+            key_value
+                .iter()
+                .flat_map(|key_value| key_value.comment_directives())
+                .chain(table.comment_directives()),
+            l,
+        )
+        .await;
     }
 }
 
-- 
2.43.0


From eb54adf4d060e308c525a9b665264191fffc75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 58/62] fix: a disable on a dotted key is not unused because
 the tables above its value do not need it

---
 crates/tombi-validator/src/validate/table.rs | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index a315add..e349153 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -1,6 +1,7 @@
 use itertools::Itertools;
 use tombi_accessor::MarkdownSchemaAccessors;
 use tombi_comment_directive::value::TableCommonLintRules;
+use tombi_document_tree::TableKind;
 use tombi_future::{BoxFuture, Boxable};
 use tombi_hashmap::HashSet;
 use tombi_schema_store::{Accessor, CompositeSchema, CurrentSchema, SchemaAccessor, SchemaView};
@@ -133,6 +134,21 @@ impl Validate for tombi_document_tree::Table {
     }
 }
 
+/// The comment directives of a table that no key below it shares.
+///
+/// A table that is only implied by a dotted key or header has the directives of that key,
+/// so that a rule it does not need may be in use for the value of the key.
+fn own_comment_directives(
+    table_value: &tombi_document_tree::Table,
+) -> Option<impl Iterator<Item = &tombi_ast::TombiValueCommentDirective> + '_> {
+    match table_value.kind() {
+        TableKind::ParentTable | TableKind::ParentKey | TableKind::KeyValue => None,
+        TableKind::Root | TableKind::Table | TableKind::InlineTable { .. } => {
+            table_value.comment_directives()
+        }
+    }
+}
+
 async fn validate_table(
     table_value: &tombi_document_tree::Table,
     accessors: &[tombi_schema_store::Accessor],
@@ -578,7 +594,7 @@ async fn validate_table(
         {
             handle_unused_noqa(
                 &mut total_diagnostics,
-                table_value.comment_directives(),
+                own_comment_directives(table_value),
                 table_rules.as_ref().map(|rules| &rules.common),
                 "table-key-required",
             );
@@ -615,7 +631,7 @@ async fn validate_table(
     {
         handle_unused_noqa(
             &mut total_diagnostics,
-            table_value.comment_directives(),
+            own_comment_directives(table_value),
             table_rules.as_ref().map(|rules| &rules.common),
             "table-max-keys",
         );
@@ -651,7 +667,7 @@ async fn validate_table(
     {
         handle_unused_noqa(
             &mut total_diagnostics,
-            table_value.comment_directives(),
+            own_comment_directives(table_value),
             table_rules.as_ref().map(|rules| &rules.common),
             "table-min-keys",
         );
-- 
2.43.0


From 084aaa8f8e4870e567677d863b4eaac613abfe18 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 59/62] fix: print each diagnostic and diff to stderr in one
 piece

Files are linted and formatted in parallel; their messages were interleaved
line by line, so that a message stood next to the location of another file.
---
 crates/tombi-diagnostic/src/printer/pretty.rs | 2 ++
 crates/tombi-diagnostic/src/printer/simple.rs | 1 +
 rust/tombi-cli/src/app/command/format.rs      | 2 ++
 rust/tombi-cli/src/error.rs                   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/crates/tombi-diagnostic/src/printer/pretty.rs b/crates/tombi-diagnostic/src/printer/pretty.rs
index 5fd89fb..a66fc05 100644
--- a/crates/tombi-diagnostic/src/printer/pretty.rs
+++ b/crates/tombi-diagnostic/src/printer/pretty.rs
@@ -25,6 +25,8 @@ impl Print<Pretty> for Level {
 
 impl Print<Pretty> for Diagnostic {
     fn print(&self, printer: &mut Pretty) {
+        // Keep the message and its location together when several threads print.
+        let _stderr = std::io::stderr().lock();
         self.level().print(printer);
 
         let (message_style, at_style, link_style) = if printer.use_ansi_color {
diff --git a/crates/tombi-diagnostic/src/printer/simple.rs b/crates/tombi-diagnostic/src/printer/simple.rs
index b1309cc..4d26720 100644
--- a/crates/tombi-diagnostic/src/printer/simple.rs
+++ b/crates/tombi-diagnostic/src/printer/simple.rs
@@ -35,6 +35,7 @@ impl Print<Simple> for Diagnostic {
             Style::new()
         };
 
+        let _stderr = std::io::stderr().lock();
         self.level().print(printer);
         eprintln!(": {}", message_style.paint(self.message()));
     }
diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index 41f3bd4..28c7f55 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -415,6 +415,8 @@ impl std::fmt::Display for Line {
 }
 
 fn eprint_diff(source: &str, formatted: &str) {
+    // Keep the diff of a file in one piece when several files are formatted at once.
+    let _stderr = std::io::stderr().lock();
     let diff = TextDiff::from_lines(source, formatted);
     const INDENT: &str = "        ";
 
diff --git a/rust/tombi-cli/src/error.rs b/rust/tombi-cli/src/error.rs
index aa7202a..f8916c4 100644
--- a/rust/tombi-cli/src/error.rs
+++ b/rust/tombi-cli/src/error.rs
@@ -83,6 +83,7 @@ impl Print<Simple> for Error {
             Style::new()
         };
 
+        let _stderr = std::io::stderr().lock();
         Level::ERROR.print(printer);
         eprintln!(": {}", message_style.paint(self.to_string()));
     }
-- 
2.43.0


From 173833a63e84b0a52cb398b759f2b9585ade4db9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 60/62] fix: do not take the TOML version of another schema
 when a document names its schema

The x-tombi-toml-version of the schema associated by path applied to a
document whose #:schema directive names a different schema.
---
 crates/tombi-schema-store/src/schema/source_schema.rs | 5 +++++
 crates/tombi-schema-store/src/store.rs                | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/source_schema.rs b/crates/tombi-schema-store/src/schema/source_schema.rs
index 3e7382b..952ef21 100644
--- a/crates/tombi-schema-store/src/schema/source_schema.rs
+++ b/crates/tombi-schema-store/src/schema/source_schema.rs
@@ -54,6 +54,11 @@ impl SourceSchema {
         }
     }
 
+    /// Returns the TOML version given by the `[[schemas]]` config entry, if any.
+    pub(crate) fn config_toml_version(&self) -> Option<TomlVersion> {
+        self.toml_version
+    }
+
     /// Returns the resolved TOML version for this source.
     ///
     /// Priority: `[[schemas]]` config `toml-version` > JSON Schema `x-tombi-toml-version`.
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 4f78d14..f8794c8 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -723,7 +723,7 @@ impl SchemaStore {
             schema_overrides,
             strict,
         ) = if let Some(source_schema) = source_schema {
-            let toml_version = source_schema.toml_version();
+            let toml_version = source_schema.config_toml_version();
             let strict = source_schema
                 .root_schema
                 .as_ref()
-- 
2.43.0


From 5df54b9618ddb501a9343ff76c94ecb9a1d927f3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 61/62] fix: keep the deprecated level of a sub schema to that
 sub schema

When no root schema was matched before it, the level of the first sub schema
applied to every other schema of the document.
---
 crates/tombi-schema-store/src/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index f8794c8..28a721d 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -944,7 +944,8 @@ impl SchemaStore {
                                 None,
                                 sub_schema_link_map,
                                 matching_schema.toml_version,
-                                matching_schema.deprecated_lint_level,
+                                // The level of a sub schema applies to that sub schema only.
+                                None,
                                 schema_format_rules,
                                 schema_lint_rules,
                                 schema_overrides,
-- 
2.43.0


From 8bbe500ff2d2b46c41e0281963c804800249466d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 62/62] fix: look for sub schemas below tables and arrays whose
 schema is true

They were not descended into, so that a sub schema configured for a place
below was not applied and no lint rule was checked there.
---
 crates/tombi-validator/src/validate/array.rs |  6 ++++--
 crates/tombi-validator/src/validate/table.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index c647385..c84302c 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -7,7 +7,7 @@ use tombi_severity_level::SeverityLevelDefaultError;
 use crate::{
     comment_directive::get_tombi_array_comment_directive_and_diagnostics,
     validate::{
-        handle_anything_schema, handle_deprecated, handle_nothing_schema, handle_unused_noqa,
+        handle_deprecated, handle_nothing_schema, handle_unused_noqa,
         if_then_else::validate_if_then_else, is_assertion_success, merge_validation_results,
         validate_adjacent_applicators,
     },
@@ -100,7 +100,9 @@ impl Validate for tombi_document_tree::Array {
                         .await
                     }
                     SchemaView::Null => handle_nothing_schema(self),
-                    SchemaView::Anything(_) => handle_anything_schema(self),
+                    SchemaView::Anything(_) => {
+                        validate_array_without_schema(self, accessors, schema_context).await
+                    }
                     SchemaView::Nothing(_) => handle_nothing_schema(self),
                     _ => {
                         crate::validate::validate_mismatched_schema(
diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index e349153..b2633bc 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -12,10 +12,9 @@ use crate::{
         get_tombi_key_rules_and_diagnostics, get_tombi_table_comment_directive_and_diagnostics,
     },
     validate::{
-        filter_table_strict_additional_diagnostics, handle_anything_schema, handle_deprecated,
-        handle_deprecated_value, handle_nothing_schema, handle_unused_noqa,
-        if_then_else::validate_if_then_else, is_assertion_success, merge_validation_results,
-        validate_adjacent_applicators,
+        filter_table_strict_additional_diagnostics, handle_deprecated, handle_deprecated_value,
+        handle_nothing_schema, handle_unused_noqa, if_then_else::validate_if_then_else,
+        is_assertion_success, merge_validation_results, validate_adjacent_applicators,
     },
 };
 
@@ -108,7 +107,9 @@ impl Validate for tombi_document_tree::Table {
                         .await
                     }
                     SchemaView::Null => handle_nothing_schema(self),
-                    SchemaView::Anything(_) => handle_anything_schema(self),
+                    SchemaView::Anything(_) => {
+                        validate_table_without_schema(self, accessors, schema_context).await
+                    }
                     SchemaView::Nothing(_) => handle_nothing_schema(self),
                     _ => {
                         crate::validate::validate_mismatched_schema(
-- 
2.43.0

