From de18ed03362590c058d4ba257fafd18760b067dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/15] fix: compare end of parse with the byte length of the
 text

---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From b4b659044034b5740432cd020f533659dedee1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 02/15] fix: try tail rule of fast select at the end of the
 text

---
 src/meta_rules/fast_select.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..0f1419b 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -80,8 +80,9 @@ impl FastSelect {
                     }
                 }
             } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
+                // The tail rule might match at the end of the text.
+                self.args[self.args.len()-1]
+                    .parse(tokens, state, read_token, refs, indent_settings)
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From 94779c03857c661b362bf189fee50f95870aa8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 03/15] fix: stop repeating rules that read nothing

---
 src/meta_rules/repeat.rs      | 3 +++
 src/meta_rules/separate_by.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/meta_rules/repeat.rs b/src/meta_rules/repeat.rs
index 3a6b83e..201c8b0 100644
--- a/src/meta_rules/repeat.rs
+++ b/src/meta_rules/repeat.rs
@@ -42,6 +42,7 @@ impl Repeat {
         let mut opt_error = None;
         let mut first = true;
         loop {
+            let offset = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     if first && !self.optional {
@@ -56,6 +57,8 @@ impl Repeat {
                     state
                 }
             };
+            // Repeating a rule that reads nothing would never end.
+            if read_token.offset == offset {break}
             first = false;
         }
         Ok((read_token.subtract(start), state, opt_error))
diff --git a/src/meta_rules/separate_by.rs b/src/meta_rules/separate_by.rs
index 3d7457b..50a66f0 100644
--- a/src/meta_rules/separate_by.rs
+++ b/src/meta_rules/separate_by.rs
@@ -46,6 +46,7 @@ impl SeparateBy {
         let mut first = true;
         let mut opt_error = None;
         loop {
+            let offset = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     match (first, self.optional, self.allow_trail) {
@@ -77,6 +78,8 @@ impl SeparateBy {
                     state
                 }
             };
+            // Repeating rules that read nothing would never end.
+            if read_token.offset == offset {break}
             first = false;
         }
         Ok((read_token.subtract(start), state, opt_error))
-- 
2.43.0


From 798e5f868a7f41426dac9237ad49950d1aadd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 04/15] fix: stop reading lines with a rule that reads nothing

---
 src/meta_rules/lines.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..44bc188 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -98,7 +98,8 @@ impl Lines {
                         indent_settings.indent = old_indent;
                         err_update(err, &mut opt_error);
                         state = new_state;
-                        Some(range)
+                        // Repeating a rule that reads nothing would never end.
+                        if range.length == 0 {None} else {Some(range)}
                     }
                 }
             }) {
@@ -121,7 +122,8 @@ impl Lines {
                     Ok((range, new_state, err)) => {
                         err_update(err, &mut opt_error);
                         state = new_state;
-                        Some(range)
+                        // Repeating a rule that reads nothing would never end.
+                        if range.length == 0 {None} else {Some(range)}
                     }
                 }
             }) {
-- 
2.43.0


From 30a5fc41699c80ce852a380fa07c1cc04146f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 05/15] fix: restore indention when leaving indented lines

---
 src/meta_rules/lines.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 44bc188..b034a70 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -42,7 +42,9 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            // Aligning to the first line must not affect rules outside.
+            let outer_indent = indent_settings.indent;
+            let res = read_token.lines(|read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -102,7 +104,9 @@ impl Lines {
                         if range.length == 0 {None} else {Some(range)}
                     }
                 }
-            }) {
+            });
+            indent_settings.indent = outer_indent;
+            match res {
                 Err(range) => {
                     let err = range.wrap(
                         ParseError::ExpectedNewLine(self.debug_id));
-- 
2.43.0


From 48bb6e8d688c51a6c1d04e2095c1cf434879a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 06/15] fix: count all columns of a tab when aligning lines

---
 src/meta_rules/lines.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index b034a70..5e59c33 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -49,6 +49,8 @@ impl Lines {
                 let mut read_token = *read_token;
                 if self.indent {
                     let mut n = indent_settings.indent;
+                    // Columns of a tab beyond the indention.
+                    let mut excess = 0;
                     while n > 0 {
                         if let Some(range) = read_token.tag(" ") {
                             read_token = read_token.consume(range.length);
@@ -56,6 +58,7 @@ impl Lines {
                         } else if let Some(range) = read_token.tag("\t") {
                             read_token = read_token.consume(range.length);
                             if n <= indent_settings.tab_spaces as u32 {
+                                excess = indent_settings.tab_spaces as u32 - n;
                                 break
                             } else {
                                 n -= indent_settings.tab_spaces as u32;
@@ -66,6 +69,7 @@ impl Lines {
                     }
                     if first && indent_settings.align_first {
                         first = false;
+                        indent_settings.indent += excess;
                         loop {
                             if let Some(range) = read_token.tag(" ") {
                                 read_token = read_token.consume(range.length);
@@ -81,6 +85,11 @@ impl Lines {
                         if let Some(_) = read_token.tag(" ") {
                             return None;
                         }
+                        if indent_settings.align_first {
+                            if excess > 0 || read_token.tag("\t").is_some() {
+                                return None;
+                            }
+                        }
                     }
                 }
 
-- 
2.43.0


From 5051e6ca18f6acb11633355126adaba6edd2e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/15] fix: escape all control characters in JSON strings

---
 src/json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..20eb2d5 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,9 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            // JSON does not allow control characters in strings.
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From 03cea704ce4da5052b1dd30b59800f9752e527f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 08/15] fix: avoid overflow of debug id when rule number is
 large

---
 src/bootstrap/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..3ac96aa 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -851,7 +851,8 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
-                id = Some(val as usize);
+                // Avoid overflow when multiplied below.
+                id = Some(val as u32 as usize);
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
                 name = Some(val);
-- 
2.43.0


From 752867878f360e10ce2de24aa0511bfbbc4e5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 09/15] fix: do not hang or overflow when converting badly
 nested meta data

---
 src/bootstrap/convert.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 3ac96aa..6d9ba53 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -95,7 +95,7 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
@@ -877,6 +877,19 @@ pub fn convert(
         }
     }
 
+    // Reading a node continues until its end, so nodes must be nested properly.
+    let mut open: Vec<&Arc<String>> = vec![];
+    for item in data {
+        match item.data {
+            MetaData::StartNode(ref name) => open.push(name),
+            MetaData::EndNode(ref name) => {
+                if open.pop() != Some(name) { return Err(()); }
+            }
+            _ => {}
+        }
+    }
+    if open.len() > 0 { return Err(()); }
+
     let mut strings: Vec<(Arc<String>, Arc<String>)> = vec![];
     let mut convert = Convert::new(data);
     loop {
-- 
2.43.0


From 24df701090e855ae224647d861d7dd2550a572f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 10/15] fix: report syntax using undefined string instead of
 dropping rules

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b767e6..4ecc04f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,13 @@ pub fn syntax(rules: &str) -> Result<Syntax, Range<ParseError>> {
     parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;
     let mut ignored_meta_data = vec![];
     match bootstrap::convert(&tokens, &mut ignored_meta_data) {
-        Ok(res) => Ok(res.optimize()),
+        // Ignored meta data means that a part of the syntax was not understood.
+        Ok(res) => match ignored_meta_data.get(0) {
+            None => Ok(res.optimize()),
+            Some(ignored) => Err(tokens[ignored.offset].range().wrap(
+                ParseError::Conversion(
+                    format!("Could not convert to rules, is a string undefined?"))))
+        },
         Err(()) => Err(Range::empty(0).wrap(ParseError::Conversion(
             format!("Bootstrapping rules are incorrect"))))
     }
-- 
2.43.0


From 129d107acb7aaf3f8afc62c551860dc2f8a92eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 11/15] fix: place error pointer by counting characters instead
 of bytes

---
 src/parse_error_handler.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..f70349d 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -48,9 +48,12 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Count characters, since ranges count bytes.
+                    let j = text.char_indices()
+                        .take_while(|&(k, _)| k < intersect.offset - r.offset)
+                        .count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
@@ -122,9 +125,12 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Count characters, since ranges count bytes.
+                    let j = text.char_indices()
+                        .take_while(|&(k, _)| k < intersect.offset - r.offset)
+                        .count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
-- 
2.43.0


From b417050ef6dd0549ac32a1226414f0d7f950f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 12/15] fix: do not overflow the stack when optimizing nodes
 that start with themselves

---
 src/optimize.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..7ac4b35 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,11 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    unique_byte_in(rule, refs, refs.len())
+}
+
+// Following more nodes than there are, means that a node starts with itself.
+fn unique_byte_in(rule: &Rule, refs: &[Rule], nodes: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,28 +42,31 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {unique_byte_in(&r.rule, refs, nodes)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {unique_byte_in(&sel.args[0], refs, nodes)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {unique_byte_in(&sep.rule, refs, nodes)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {unique_byte_in(&seq.args[0], refs, nodes)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {unique_byte_in(&rep.rule, refs, nodes)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
+            if nodes == 0 {None}
+            else if let Some(index) = node.index {
+                unique_byte_in(&refs[index], refs, nodes - 1)
+            }
             else {None}
         }
         Rule::Tag(ref tag) => {
-- 
2.43.0


From 9a8263609f11af112fa1510ad021e772550581a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 13/15] fix: separated rules without a dot do not allow
 trailing

The syntax documents '.s?(...)' and '.s!(...)' as not allowing trailing,
but a missing 'allow_trail' was taken to mean that it is allowed.
---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 6d9ba53..d10f977 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -654,7 +654,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 8106172067ecda0deb139ddcb9e098f4aac2f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 14/15] fix: line lists counted wide white space as one byte

---
 src/meta_rules/lines.rs | 44 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 5e59c33..bd49357 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -15,6 +15,46 @@ use {
 };
 use tokenizer::TokenizerState;
 
+/// Read lines until closure returns `None`.
+/// Returns `Ok(range)` of the successful read lines.
+/// Returns `Err(range)` when expected new line.
+///
+/// Same as `ReadToken::lines`, which miscounts the bytes of
+/// whitespace characters that take more than one byte.
+fn read_lines<F>(start: &ReadToken, mut f: F) -> Result<Range, Range>
+    where F: FnMut(&ReadToken) -> Option<Range>
+{
+    let mut read_token = *start;
+    let mut new_lines = true;
+    loop {
+        let ws = read_token.whitespace().length;
+        if ws == read_token.src.len() {
+            read_token = read_token.consume(ws);
+            break;
+        }
+        if let Some(i) = read_token.src[..ws].rfind('\n') {
+            read_token = read_token.consume(i + 1);
+            new_lines = true;
+        }
+        if !new_lines {
+            return Err(Range::empty(read_token.offset));
+        }
+        match f(&read_token) {
+            None => break,
+            Some(range) => {
+                // Find whether a new line occured at the end.
+                // If it did, we do not require a new line before
+                // calling the closure.
+                new_lines = read_token.src[..range.length]
+                    .trim_end_matches(|c: char| c != '\n' && c.is_whitespace())
+                    .ends_with('\n');
+                read_token = read_token.consume(range.length);
+            }
+        }
+    }
+    Ok(read_token.subtract(start))
+}
+
 /// Stores information about lines.
 #[derive(Clone, Debug, PartialEq)]
 pub struct Lines {
@@ -44,7 +84,7 @@ impl Lines {
         if self.indent {
             // Aligning to the first line must not affect rules outside.
             let outer_indent = indent_settings.indent;
-            let res = read_token.lines(|read_token| {
+            let res = read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -126,7 +166,7 @@ impl Lines {
                 }
             }
         } else {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
                         err_update(Some(err), &mut opt_error);
-- 
2.43.0


From fe1b23880fea43bd7d35b31e57eda959ebd9b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 15/15] fix: number with a long exponent overflowed

---
 src/meta_rules/number.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/number.rs b/src/meta_rules/number.rs
index 522ad4e..45cf8a9 100644
--- a/src/meta_rules/number.rs
+++ b/src/meta_rules/number.rs
@@ -1,5 +1,5 @@
 use range::Range;
-use read_token::{ NumberSettings, ReadToken };
+use read_token::{ NumberSettings, ParseNumberError, ReadToken };
 use std::sync::Arc;
 
 use super::{
@@ -12,6 +12,28 @@ use {
 };
 use tokenizer::{ read_data, TokenizerState };
 
+/// Parses number from n bytes.
+///
+/// Limits the digits of the exponent, such that it does not overflow.
+fn parse_number(read_token: &ReadToken, settings: &NumberSettings, n: usize)
+-> Result<f64, ParseNumberError> {
+    const MAX_DIGITS: usize = 9;
+
+    let src = &read_token.src[..n];
+    if let Some(i) = src.find(|c| c == 'e' || c == 'E') {
+        let digits = src[i + 1..].trim_start_matches(|c| c == '+' || c == '-');
+        let digits = digits.trim_start_matches(|c| c == '0' || c == '_');
+        let end = digits.find(|c: char| !c.is_digit(10) && c != '_')
+            .unwrap_or(digits.len());
+        if digits[..end].chars().filter(|&c| c != '_').count() > MAX_DIGITS {
+            let start = n - digits.len();
+            let limited = format!("{}{}{}", &src[..start], "9".repeat(MAX_DIGITS), &digits[end..]);
+            return ReadToken::new(&limited, read_token.offset).parse_number(settings, limited.len());
+        }
+    }
+    read_token.parse_number(settings, n)
+}
+
 /// Contains information about number.
 #[derive(Clone, Debug, PartialEq)]
 pub struct Number {
@@ -35,7 +57,7 @@ impl Number {
             allow_underscore: self.allow_underscore
         };
         if let Some(range) = read_token.number(&settings) {
-            match read_token.parse_number(&settings, range.length) {
+            match parse_number(read_token, &settings, range.length) {
                 Err(err) => {
                     Err(range.wrap(
                     ParseError::ParseNumberError(err, self.debug_id)))
-- 
2.43.0

