From 8d97c44b58a9f75d8edf7511970e260d732424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:18 +0000
Subject: [PATCH 1/9] fix: compare the end of the parsed range with the byte
 length of the text

Ranges count bytes, so comparing with the number of characters accepted
documents with unread input whenever the text is not ASCII.
---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From ece98250f5a878c3a7ead463c83fb03099e8bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:18 +0000
Subject: [PATCH 2/9] fix: try the tail of a fast select at the end of the text

A select whose last alternatives can match nothing succeeds at the end of
the text, but its optimized form always failed there.
---
 src/meta_rules/fast_select.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..34d8563 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -50,8 +50,8 @@ impl FastSelect {
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         if self.tail {
+            let mut opt_error: Option<Range<ParseError>> = None;
             if let Some(ch) = read_token.src.chars().next() {
-                let mut opt_error: Option<Range<ParseError>> = None;
                 let mut buf = [0; 4];
                 ch.encode_utf8(&mut buf);
                 let ind = self.table[buf[0] as usize];
@@ -68,20 +68,18 @@ impl FastSelect {
                         }
                     }
                 }
-                let sub_rule = &self.args[self.args.len()-1];
-                match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
-                    Ok((range, state, err)) => {
-                        err_update(err, &mut opt_error);
-                        Ok((read_token.peek(range.length),
-                            state, opt_error))
-                    }
-                    Err(err) => {
-                        Err(ret_err(err, opt_error))
-                    }
+            }
+            // The tail is also tried at the end of the text.
+            let sub_rule = &self.args[self.args.len()-1];
+            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
+                Ok((range, state, err)) => {
+                    err_update(err, &mut opt_error);
+                    Ok((read_token.peek(range.length),
+                        state, opt_error))
+                }
+                Err(err) => {
+                    Err(ret_err(err, opt_error))
                 }
-            } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From c93065280b5022c420269fd70367f95b4d07bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 3/9] fix: stop the search for a first byte when a rule starts
 with itself

Optimizing a syntax with left recursion overflowed the stack.
---
 src/optimize.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..ddae6d4 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,12 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    // Following more references than there are rules means that some rule starts with itself.
+    unique_byte_within(rule, refs, refs.len())
+}
+
+/// Finds a unique byte from rule, following at most the given number of references.
+fn unique_byte_within(rule: &Rule, refs: &[Rule], depth: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,28 +43,29 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {unique_byte_within(&r.rule, refs, depth)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {unique_byte_within(&sel.args[0], refs, depth)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {unique_byte_within(&sep.rule, refs, depth)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {unique_byte_within(&seq.args[0], refs, depth)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {unique_byte_within(&rep.rule, refs, depth)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
+            if depth == 0 {None}
+            else if let Some(index) = node.index {unique_byte_within(&refs[index], refs, depth - 1)}
             else {None}
         }
         Rule::Tag(ref tag) => {
-- 
2.43.0


From 6fd74f8bf08b554b020563b4cc72fb202af09272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 4/9] fix: reject truncated and unbalanced meta data when
 converting to rules

The reader functions looped forever when the data ended inside a node, and
skipping an end marker without a start underflowed.
---
 src/bootstrap/convert.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..ac142f9 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -89,12 +89,14 @@ impl<'a> Convert<'a> {
 
     /// Ignores next item.
     /// If this is the start of a node, it ignores all items to the end node.
+    /// Ignores nothing when there are no more items, or when the next item is an end node.
     pub fn ignore(&self) -> Range {
         let mut acc: usize = 0;
         let mut len = 0;
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
+                &MetaData::EndNode(_) if acc == 0 => break,
                 &MetaData::EndNode(_) => acc -= 1,
                 _ => {}
             }
@@ -198,6 +200,7 @@ pub fn convert(
                 args.push(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -270,6 +273,7 @@ pub fn convert(
                 property = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -318,6 +322,7 @@ pub fn convert(
                 property = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -371,6 +376,7 @@ pub fn convert(
                 inverted = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -434,6 +440,7 @@ pub fn convert(
                 property = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -473,6 +480,7 @@ pub fn convert(
                 underscore = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -512,6 +520,7 @@ pub fn convert(
                 property = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -553,6 +562,7 @@ pub fn convert(
                 args.push(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -649,6 +659,7 @@ pub fn convert(
                 rule = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -725,6 +736,7 @@ pub fn convert(
                 optional = Some(val);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
@@ -864,6 +876,7 @@ pub fn convert(
                 convert.update(range);
             } else {
                 let range = convert.ignore();
+                if range.is_empty() { return Err(()); }
                 convert.update(range);
                 ignored.push(range);
             }
-- 
2.43.0


From a3317181e565f4a5401744365b25f3b533959a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 5/9] fix: do not overflow the debug id of nodes with a huge
 number

---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index ac142f9..db9e162 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -869,7 +869,7 @@ pub fn convert(
                 name = Some(val);
                 convert.update(range);
             } else if let Ok((range, val)) = read_rule(
-                &mut (id.unwrap_or(0) * 1000), "rule",
+                &mut (id.unwrap_or(0).min(::std::usize::MAX / 2000) * 1000), "rule",
                 convert, strings, ignored
             ) {
                 rule = Some(val);
-- 
2.43.0


From 70ee66eb3927493712e4fa32753ee2336b15c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 6/9] fix: escape all control characters in JSON strings

---
 src/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..c984b14 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,8 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From be079472118aaabec5805e5d66c48f305a4534e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 7/9] fix: count columns of reported positions in characters

---
 src/parse_error_handler.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..af5b158 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -19,6 +19,16 @@ pub struct ParseErrorHandler<'a> {
     lines: Vec<(Range, &'a str)>,
 }
 
+/// Gets the number of characters that start before a byte position in a line.
+fn column(text: &str, n: usize) -> usize {
+    let mut j = 0;
+    for (i, _) in text.char_indices() {
+        if i >= n { break; }
+        j += 1;
+    }
+    j
+}
+
 impl<'a> ParseErrorHandler<'a> {
     /// Creates a new error handler.
     pub fn new(text: &'a str) -> ParseErrorHandler<'a> {
@@ -48,7 +58,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
@@ -122,7 +132,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
-- 
2.43.0


From 5c3bfaf31bdfcd50df215104b11b6f45fe1ab31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 8/9] fix: do not overflow the indentation level of deeply
 indented lines

---
 src/meta_rules/lines.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..a13ddc4 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -67,10 +67,11 @@ impl Lines {
                         loop {
                             if let Some(range) = read_token.tag(" ") {
                                 read_token = read_token.consume(range.length);
-                                indent_settings.indent += 1;
+                                indent_settings.indent = indent_settings.indent.saturating_add(1);
                             } else if let Some(range) = read_token.tag("\t") {
                                 read_token = read_token.consume(range.length);
-                                indent_settings.indent += indent_settings.tab_spaces as u32;
+                                indent_settings.indent = indent_settings.indent
+                                    .saturating_add(indent_settings.tab_spaces as u32);
                             } else {
                                 break;
                             }
@@ -84,7 +85,7 @@ impl Lines {
 
                 // Increase indent.
                 let old_indent = indent_settings.indent;
-                indent_settings.indent += 1;
+                indent_settings.indent = old_indent.saturating_add(1);
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
                         indent_settings.indent = old_indent;
-- 
2.43.0


From 7b1ed4e3d7330cc6eacc48ee1b6be72502fdab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:12 +0000
Subject: [PATCH 9/9] fix: do not allow a trailing separator unless the rule
 asks for it

---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index db9e162..8dd7b8b 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -665,7 +665,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0

