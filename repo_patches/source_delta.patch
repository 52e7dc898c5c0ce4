From 7ab528ff782161305a02253df1642cfc5a198382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 01/54] fix: keep backslash escapes of punctuation in prose
 instead of doubling the backslash

---
 src/serializer/inline.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..f5f7358 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -325,22 +325,12 @@ impl<'a> Serializer<'a> {
                     // Source has an escape sequence, text doesn't have a backslash
                     let escaped_char = source_chars[source_idx + 1];
                     if escaped_char == text_char {
-                        // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
-                            result.push('\\');
-                            result.push(escaped_char);
-                        } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
-                        }
+                        // The escape in source corresponds to this character in text,
+                        // so preserve it (e.g., \_ → \_, \! → \!).  A backslash that does
+                        // not escape anything (e.g., \U) is kept in the text by the parser
+                        // and therefore handled above.
+                        result.push('\\');
+                        result.push(escaped_char);
                         text_idx += 1;
                         source_idx += 2;
                     } else {
-- 
2.43.0


From 34cb5cecf0d4f697eafc3bd10f4f821d7ec50eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 02/54] fix: keep empty headings and empty block quotes

---
 src/serializer/block.rs    | 6 ++++++
 src/serializer/document.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..913d78c 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -82,6 +82,12 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
         let state = self.enter_blockquote_context();
         let children: Vec<_> = node.children().collect();
+        if children.is_empty() {
+            // Keep an empty block quote as a bare marker
+            self.output.push_str(&state.indent);
+            self.output.push_str(&state.old_blockquote_prefix);
+            self.output.push_str(">\n");
+        }
         self.serialize_blockquote_children(&children, &state);
         self.exit_blockquote_context(state);
     }
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..b92d453 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -436,6 +436,13 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
+        // An empty heading has no setext form; keep it as a bare ATX marker
+        if heading_text.trim().is_empty() {
+            self.output.push_str(&"#".repeat(level as usize));
+            self.output.push('\n');
+            return;
+        }
+
         if level == 1 && self.options.setext_h1 {
             // Setext-style with '='
             self.output.push_str(&heading_text);
-- 
2.43.0


From ed575e34c81671fedab80642d072e61b8b19a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 03/54] fix: keep escapes and entities at the start of a text
 and after typographic replacements

---
 src/serializer/inline.rs | 53 +++++++++++++++++++++++++++++++++++-----
 src/serializer/state.rs  | 20 +++++++++++++++
 2 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index f5f7358..3ae2b8b 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use crate::DashSetting;
 
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
@@ -43,8 +44,8 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                if let Some(source) = self.extract_text_source(node) {
+                    text.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -136,8 +137,8 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                if let Some(source) = self.extract_text_source(node) {
+                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -293,7 +294,7 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
+    fn escape_text_preserving_source(&self, text: &str, source: &str) -> String {
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -305,7 +306,12 @@ impl<'a> Serializer<'a> {
             let text_char = text_chars[text_idx];
             let source_char = source_chars[source_idx];
 
-            if source_char == '\\' && source_idx + 1 < source_chars.len() {
+            if let Some(len) = self.punctuation_source_len(text_char, &source_chars[source_idx..]) {
+                // The character replaces an ASCII pattern of the source
+                result.push(text_char);
+                text_idx += 1;
+                source_idx += len;
+            } else if source_char == '\\' && source_idx + 1 < source_chars.len() {
                 if text_char == '\\' {
                     // Both source and text have a backslash
                     // Check if source has an escaped backslash (\\)
@@ -384,6 +390,41 @@ impl<'a> Serializer<'a> {
         result
     }
 
+    /// Length of the source text that a typographic character produced by the
+    /// punctuation transformation stands for, if `source` starts with it.
+    fn punctuation_source_len(&self, ch: char, source: &[char]) -> Option<usize> {
+        let pattern = match ch {
+            '\u{201C}' | '\u{201D}' => "\"",
+            '\u{2018}' | '\u{2019}' => "'",
+            '\u{2026}' => "...",
+            '\u{2013}' => match &self.options.en_dash {
+                DashSetting::Pattern(pattern) => pattern.as_str(),
+                DashSetting::Disabled => return None,
+            },
+            '\u{2014}' => match &self.options.em_dash {
+                DashSetting::Pattern(pattern) => pattern.as_str(),
+                DashSetting::Disabled => return None,
+            },
+            _ => return None,
+        };
+        let mut idx = 0;
+        for expected in pattern.chars() {
+            // Each character may be escaped or written as an entity in the source
+            if source.get(idx) == Some(&'\\') && source.get(idx + 1) == Some(&expected) {
+                idx += 2;
+            } else if source.get(idx) == Some(&expected) {
+                idx += 1;
+            } else {
+                let (entity, decoded) = Self::try_parse_html_entity(source, idx)?;
+                if decoded != expected {
+                    return None;
+                }
+                idx += entity.len();
+            }
+        }
+        Some(idx)
+    }
+
     /// Try to parse an HTML entity starting at the given position.
     /// Returns the entity string and the decoded character if successful.
     fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..1be178f 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -413,6 +413,26 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Extract the original source of a text node.
+    ///
+    /// comrak reports a text node that begins with an escaped character as
+    /// starting after the backslash, so the backslash is included here.
+    pub fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let is_escaped = source.starts_with(|c: char| c.is_ascii_punctuation())
+            && start.column >= 2
+            && self
+                .source_lines
+                .get(start.line.saturating_sub(1))
+                .is_some_and(|line| line.as_bytes().get(start.column - 2) == Some(&b'\\'));
+        Some(if is_escaped {
+            format!("\\{source}")
+        } else {
+            source
+        })
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From 528662e4001feb4e39fb0448f37f7385a1d9829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 04/54] fix: keep the start number of ordered lists

---
 src/serializer/list.rs  | 5 ++++-
 src/serializer/mod.rs   | 2 +-
 src/serializer/state.rs | 4 ++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..548fab6 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -34,11 +34,13 @@ impl<'a> Serializer<'a> {
         node: &'b AstNode<'b>,
         list_type: ListType,
         tight: bool,
+        start: usize,
     ) {
         let old_list_type = self.list_type;
         let old_list_tight = self.list_tight;
         let old_index = self.list_item_index;
         let old_max_items = self.ordered_list_max_items;
+        let old_start = std::mem::replace(&mut self.ordered_list_start, start);
 
         self.list_type = Some(list_type);
         self.list_tight = tight;
@@ -57,6 +59,7 @@ impl<'a> Serializer<'a> {
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
         self.ordered_list_max_items = old_max_items;
+        self.ordered_list_start = old_start;
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -141,7 +144,7 @@ impl<'a> Serializer<'a> {
                     self.options.even_level_marker.as_char()
                 };
 
-                let current_num = self.list_item_index.to_string();
+                let current_num = (self.ordered_list_start + self.list_item_index - 1).to_string();
                 let current_num_width = current_num.len();
 
                 // Calculate trailing spaces to maintain fixed marker width
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..d4a4e06 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -518,7 +518,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_heading(node, heading.level);
             }
             NodeValue::List(list) => {
-                self.serialize_list(node, list.list_type, list.tight);
+                self.serialize_list(node, list.list_type, list.tight, list.start);
             }
             NodeValue::CodeBlock(code_block) => {
                 self.serialize_code_block(&code_block.info, &code_block.literal);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 1be178f..6af5c89 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -267,6 +267,8 @@ pub struct Serializer<'a> {
     pub warnings: Vec<Warning>,
     /// Maximum number of items in the current ordered list (for padding calculation)
     pub ordered_list_max_items: usize,
+    /// Number of the first item of the current ordered list
+    pub ordered_list_start: usize,
     /// Whether the original source ends with a newline
     pub source_ends_with_newline: bool,
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
@@ -311,6 +313,7 @@ impl<'a> Serializer<'a> {
             description_details_first_list: false,
             warnings: Vec::new(),
             ordered_list_max_items: 0,
+            ordered_list_start: 1,
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_outer_indent: String::new(),
@@ -348,6 +351,7 @@ impl<'a> Serializer<'a> {
             description_details_first_list: false,
             warnings: Vec::new(),
             ordered_list_max_items: 0,
+            ordered_list_start: 1,
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_outer_indent: String::new(),
-- 
2.43.0


From e39113faa786a8a0b5aeb758ca68e9341878be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 05/54] fix: keep headings, tables, HTML blocks and thematic
 breaks inside their list item or block quote

---
 src/serializer/document.rs | 10 ++++++++++
 src/serializer/list.rs     | 35 +++++++++++++++++++++++++++++++++++
 src/serializer/mod.rs      | 11 ++++++++++-
 3 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b92d453..7f9fb30 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -436,6 +436,14 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
+        // Inside a block quote every line needs the quote prefix
+        let prefix = if self.in_block_quote {
+            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+        } else {
+            String::new()
+        };
+        self.output.push_str(&prefix);
+
         // An empty heading has no setext form; keep it as a bare ATX marker
         if heading_text.trim().is_empty() {
             self.output.push_str(&"#".repeat(level as usize));
@@ -447,12 +455,14 @@ impl<'a> Serializer<'a> {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
+            self.output.push_str(&prefix);
             self.output.push_str(&"=".repeat(heading_text.width()));
             self.output.push('\n');
         } else if level == 2 && self.options.setext_h2 {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
+            self.output.push_str(&prefix);
             self.output.push_str(&"-".repeat(heading_text.width()));
             self.output.push('\n');
         } else {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 548fab6..f20d450 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -286,6 +286,41 @@ impl<'a> Serializer<'a> {
                     }
                     self.serialize_node(child);
                 }
+                NodeValue::Heading(_)
+                | NodeValue::Table(_)
+                | NodeValue::HtmlBlock(_)
+                | NodeValue::ThematicBreak => {
+                    // These are serialized without knowledge of the list item, so every
+                    // line is indented here
+                    if !is_first {
+                        let prev_ends_with_newline = matches!(
+                            &children[i - 1].data.borrow().value,
+                            NodeValue::CodeBlock(_) | NodeValue::List(_)
+                        );
+                        self.output
+                            .push_str(if prev_ends_with_newline { "\n" } else { "\n\n" });
+                    }
+                    let line_prefix = if self.in_block_quote { "> " } else { "" };
+                    let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
+                    let old_blockquote_prefix = std::mem::take(&mut self.blockquote_prefix);
+                    let old_output = std::mem::take(&mut self.output);
+                    self.serialize_node(child);
+                    let block = std::mem::replace(&mut self.output, old_output);
+                    self.blockquote_prefix = old_blockquote_prefix;
+                    self.in_block_quote = was_in_block_quote;
+                    for (line_index, line) in block.trim_end().split('\n').enumerate() {
+                        if line_index > 0 {
+                            self.output.push('\n');
+                        }
+                        if line_index > 0 || !is_first {
+                            self.output.push_str(line_prefix);
+                            if !line.is_empty() {
+                                self.output.push_str(&base_indent);
+                            }
+                        }
+                        self.output.push_str(line);
+                    }
+                }
                 _ => {
                     self.serialize_node(child);
                 }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index d4a4e06..d8c0856 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -528,7 +528,16 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::HtmlBlock(html_block) => {
                 // Preserve HTML blocks (like comments) as-is
-                self.output.push_str(&html_block.literal);
+                if self.in_block_quote {
+                    let prefix =
+                        format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix);
+                    for line in html_block.literal.lines() {
+                        self.output.push_str(format!("{prefix}{line}").trim_end());
+                        self.output.push('\n');
+                    }
+                } else {
+                    self.output.push_str(&html_block.literal);
+                }
             }
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is
-- 
2.43.0


From c19839dee1577ec3c274e1fc773b5666603fbe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 06/54] fix: keep blocks inside list items within their item
 and block quote

---
 src/serializer/block.rs    |  52 ++++++++---------
 src/serializer/code.rs     |  12 ++--
 src/serializer/document.rs |  16 ++---
 src/serializer/list.rs     | 116 ++++++++++++++++++++-----------------
 src/serializer/mod.rs      |   3 +-
 src/serializer/state.rs    |   5 --
 src/serializer/table.rs    |   6 +-
 7 files changed, 101 insertions(+), 109 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 913d78c..42adc9c 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -8,13 +8,10 @@ use super::Serializer;
 struct BlockquoteState {
     was_in_block_quote: bool,
     old_blockquote_prefix: String,
-    old_blockquote_outer_indent: String,
     old_blockquote_entry_list_depth: usize,
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
-    indent: String,
 }
 
 impl<'a> Serializer<'a> {
@@ -24,18 +21,12 @@ impl<'a> Serializer<'a> {
         self.in_block_quote = true;
 
         let old_blockquote_prefix = self.blockquote_prefix.clone();
+        self.blockquote_prefix.push_str(&self.list_item_indent);
         self.blockquote_prefix.push_str("> ");
 
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
-
         let old_blockquote_entry_list_depth =
             std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
 
-        let indent = self.list_item_indent.clone();
-
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
@@ -43,37 +34,44 @@ impl<'a> Serializer<'a> {
         BlockquoteState {
             was_in_block_quote,
             old_blockquote_prefix,
-            old_blockquote_outer_indent,
             old_blockquote_entry_list_depth,
             old_list_item_indent,
             old_list_type,
             old_list_depth,
-            indent,
         }
     }
 
+    /// Prefix of every line inside the current block quotes (empty outside of them).
+    pub(super) fn quote_line_prefix(&self) -> String {
+        if self.in_block_quote {
+            self.blockquote_prefix.clone()
+        } else {
+            String::new()
+        }
+    }
+
+    /// Output a blank line that stays inside the current block quotes.
+    pub(super) fn push_blank_line(&mut self) {
+        let prefix = self.quote_line_prefix();
+        self.output.push_str(prefix.trim_end());
+        self.output.push('\n');
+    }
+
     /// Exit blockquote context: restore the saved state.
     fn exit_blockquote_context(&mut self, state: BlockquoteState) {
         self.list_depth = state.old_list_depth;
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
-        self.blockquote_outer_indent = state.old_blockquote_outer_indent;
         self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
         self.blockquote_prefix = state.old_blockquote_prefix;
         self.in_block_quote = state.was_in_block_quote;
     }
 
     /// Serialize children within blockquote context, adding blank quote lines between them.
-    fn serialize_blockquote_children<'b>(
-        &mut self,
-        children: &[&'b AstNode<'b>],
-        state: &BlockquoteState,
-    ) {
+    fn serialize_blockquote_children<'b>(&mut self, children: &[&'b AstNode<'b>]) {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
-                self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
-                self.output.push_str(">\n");
+                self.push_blank_line();
             }
             self.serialize_node(child);
         }
@@ -84,11 +82,9 @@ impl<'a> Serializer<'a> {
         let children: Vec<_> = node.children().collect();
         if children.is_empty() {
             // Keep an empty block quote as a bare marker
-            self.output.push_str(&state.indent);
-            self.output.push_str(&state.old_blockquote_prefix);
-            self.output.push_str(">\n");
+            self.push_blank_line();
         }
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 
@@ -101,8 +97,8 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        self.output.push_str(&self.list_item_indent);
         self.output.push_str(&self.blockquote_prefix);
+        self.output.push_str(&self.list_item_indent);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
         self.output.push_str("]\n");
@@ -118,13 +114,13 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
-            self.output.push_str(&self.list_item_indent);
             self.output.push_str(&self.blockquote_prefix);
+            self.output.push_str(&self.list_item_indent);
             self.output.push_str(">\n");
         }
 
         let state = self.enter_blockquote_context();
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..54c70f0 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -187,7 +187,7 @@ impl<'a> Serializer<'a> {
 
         // Opening fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         if !output_info.is_empty() {
@@ -202,9 +202,9 @@ impl<'a> Serializer<'a> {
         for line in content.lines() {
             if self.in_block_quote {
                 if line.is_empty() {
-                    self.output.push('>');
+                    self.output.push_str(self.blockquote_prefix.trim_end());
                 } else {
-                    self.output.push_str("> ");
+                    self.output.push_str(&self.blockquote_prefix);
                 }
             }
             self.output.push_str(line);
@@ -213,7 +213,7 @@ impl<'a> Serializer<'a> {
 
         // Closing fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         self.output.push('\n');
@@ -287,7 +287,7 @@ impl<'a> Serializer<'a> {
         // Output content with indentation (skip indent for empty lines)
         for line in content.lines() {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             if !line.is_empty() {
                 self.output.push_str(indent);
@@ -298,7 +298,7 @@ impl<'a> Serializer<'a> {
 
         // Output closing fence with indentation
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(indent);
         self.output.push_str(&fence);
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 7f9fb30..72927c8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -301,7 +301,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix for blockquote context
         let blockquote_prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+            self.blockquote_prefix.clone()
         } else {
             String::new()
         };
@@ -438,7 +438,7 @@ impl<'a> Serializer<'a> {
 
         // Inside a block quote every line needs the quote prefix
         let prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+            self.blockquote_prefix.clone()
         } else {
             String::new()
         };
@@ -519,12 +519,7 @@ impl<'a> Serializer<'a> {
             };
             let continuation = if self.in_block_quote {
                 // Inside a blockquote, continuation lines need > prefix + indent
-                // Use blockquote_outer_indent (the outer list's indent, if any)
-                // rather than list_item_indent (which is for the list inside the blockquote)
-                format!(
-                    "{}{}{}",
-                    self.blockquote_outer_indent, self.blockquote_prefix, base_indent
-                )
+                format!("{}{}", self.blockquote_prefix, base_indent)
             } else {
                 base_indent
             };
@@ -538,7 +533,7 @@ impl<'a> Serializer<'a> {
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
-                format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+                self.blockquote_prefix.clone()
             } else {
                 String::new()
             };
@@ -881,8 +876,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
-            let prefix = format!("{}> ", self.blockquote_outer_indent);
-            self.output.push_str(&prefix);
+            self.output.push_str(&self.blockquote_prefix);
         }
 
         // Add leading spaces
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index f20d450..72252d9 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -4,6 +4,15 @@ use comrak::nodes::{AstNode, ListType, NodeValue};
 
 use super::Serializer;
 
+/// Whether a block inside a list item is serialized with its final newline
+/// (nested lists, code blocks, and blockquotes add their own newlines).
+fn ends_with_newline<'b>(node: &'b AstNode<'b>) -> bool {
+    matches!(
+        &node.data.borrow().value,
+        NodeValue::List(_) | NodeValue::CodeBlock(_) | NodeValue::BlockQuote | NodeValue::Alert(_)
+    )
+}
+
 impl<'a> Serializer<'a> {
     /// Count the number of items in a list node.
     fn count_list_items<'b>(node: &'b AstNode<'b>) -> usize {
@@ -29,6 +38,13 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether an item holds a block that is separated from the preceding one by a blank line.
+    fn item_needs_blank_line<'b>(item: &'b AstNode<'b>) -> bool {
+        item.children()
+            .skip(1)
+            .any(|child| !matches!(child.data.borrow().value, NodeValue::List(_)))
+    }
+
     pub(super) fn serialize_list<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -43,7 +59,8 @@ impl<'a> Serializer<'a> {
         let old_start = std::mem::replace(&mut self.ordered_list_start, start);
 
         self.list_type = Some(list_type);
-        self.list_tight = tight;
+        // Some blocks are always set off by a blank line, which makes the list loose
+        self.list_tight = tight && !node.children().any(Self::item_needs_blank_line);
         self.list_item_index = 0;
         self.list_depth += 1;
 
@@ -78,13 +95,12 @@ impl<'a> Serializer<'a> {
 
         // For loose lists, add a blank line before items (except the first)
         if !self.list_tight && self.list_item_index > 1 {
-            self.output.push('\n');
+            self.push_blank_line();
         }
 
         // Add block quote prefix if we're inside a block quote
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        let quote_prefix = self.quote_line_prefix();
+        self.output.push_str(&quote_prefix);
 
         // Check if this is the first item of a list that starts on the same line as `:` in
         // definition details. In that case, skip base indentation for the first item only.
@@ -229,11 +245,10 @@ impl<'a> Serializer<'a> {
                         false
                     };
 
+                    self.output.push('\n');
                     if has_blank_line_before {
                         // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
-                    } else {
-                        self.output.push('\n');
+                        self.push_blank_line();
                     }
                     self.serialize_node(child);
                 }
@@ -241,32 +256,27 @@ impl<'a> Serializer<'a> {
                     // For paragraphs after the first, add blank line with proper indentation
                     if !is_first {
                         // Check if previous child ends with a newline (code blocks, nested lists)
-                        let prev_ends_with_newline = i > 0
-                            && matches!(
-                                &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
-                            );
-                        if prev_ends_with_newline {
-                            // Previous element already ends with \n, so just add one more \n
+                        if !ends_with_newline(children[i - 1]) {
+                            // End the previous paragraph
                             self.output.push('\n');
-                        } else {
-                            // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
                         }
+                        self.push_blank_line();
+                        self.output.push_str(&quote_prefix);
                         self.output.push_str(&base_indent);
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
+                    // Code blocks after other content need blank line and indentation;
+                    // at the start of an item a blank line would cut them off from it
+                    if !is_first {
+                        if !ends_with_newline(children[i - 1]) {
+                            self.output.push('\n');
+                        }
+                        self.push_blank_line();
+                        self.output.push_str(&quote_prefix);
+                        self.output.push_str(&base_indent);
                     }
-                    self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
@@ -276,13 +286,13 @@ impl<'a> Serializer<'a> {
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
-                    if !is_first {
-                        self.output.push_str("\n\n");
-                    } else {
+                    if is_first {
                         self.output.push('\n');
-                    }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
+                    } else {
+                        if !ends_with_newline(children[i - 1]) {
+                            self.output.push('\n');
+                        }
+                        self.push_blank_line();
                     }
                     self.serialize_node(child);
                 }
@@ -293,14 +303,11 @@ impl<'a> Serializer<'a> {
                     // These are serialized without knowledge of the list item, so every
                     // line is indented here
                     if !is_first {
-                        let prev_ends_with_newline = matches!(
-                            &children[i - 1].data.borrow().value,
-                            NodeValue::CodeBlock(_) | NodeValue::List(_)
-                        );
-                        self.output
-                            .push_str(if prev_ends_with_newline { "\n" } else { "\n\n" });
+                        if !ends_with_newline(children[i - 1]) {
+                            self.output.push('\n');
+                        }
+                        self.push_blank_line();
                     }
-                    let line_prefix = if self.in_block_quote { "> " } else { "" };
                     let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
                     let old_blockquote_prefix = std::mem::take(&mut self.blockquote_prefix);
                     let old_output = std::mem::take(&mut self.output);
@@ -308,13 +315,24 @@ impl<'a> Serializer<'a> {
                     let block = std::mem::replace(&mut self.output, old_output);
                     self.blockquote_prefix = old_blockquote_prefix;
                     self.in_block_quote = was_in_block_quote;
-                    for (line_index, line) in block.trim_end().split('\n').enumerate() {
+                    let mut block = block.trim_end();
+                    // Next to a list marker a thematic break may read as one long thematic
+                    // break, so it starts on its own line
+                    let on_own_line =
+                        is_first && matches!(&child.data.borrow().value, NodeValue::ThematicBreak);
+                    if on_own_line {
+                        block = block.trim_start();
+                        self.output.push('\n');
+                    }
+                    for (line_index, line) in block.split('\n').enumerate() {
                         if line_index > 0 {
                             self.output.push('\n');
                         }
-                        if line_index > 0 || !is_first {
-                            self.output.push_str(line_prefix);
-                            if !line.is_empty() {
+                        if line_index > 0 || !is_first || on_own_line {
+                            if line.is_empty() {
+                                self.output.push_str(quote_prefix.trim_end());
+                            } else {
+                                self.output.push_str(&quote_prefix);
                                 self.output.push_str(&base_indent);
                             }
                         }
@@ -332,17 +350,7 @@ impl<'a> Serializer<'a> {
 
         // Only add newline if the last child doesn't already end with one
         // (nested lists, code blocks, and blockquotes add their own newlines)
-        let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
-        if !last_child_ends_with_newline {
+        if !node.children().last().is_some_and(ends_with_newline) {
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index d8c0856..5c691f1 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -529,8 +529,7 @@ impl<'a> Serializer<'a> {
             NodeValue::HtmlBlock(html_block) => {
                 // Preserve HTML blocks (like comments) as-is
                 if self.in_block_quote {
-                    let prefix =
-                        format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix);
+                    let prefix = self.blockquote_prefix.clone();
                     for line in html_block.literal.lines() {
                         self.output.push_str(format!("{prefix}{line}").trim_end());
                         self.output.push('\n');
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 6af5c89..332dc05 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -274,9 +274,6 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
-    /// Indentation prefix for content inside a blockquote that's nested inside a list.
-    /// This is the outer list's indent that should appear before each `>` in the blockquote.
-    pub blockquote_outer_indent: String,
     /// The list depth when entering the current blockquote.
     /// Used to determine if a list exists inside vs outside the blockquote.
     pub blockquote_entry_list_depth: usize,
@@ -316,7 +313,6 @@ impl<'a> Serializer<'a> {
             ordered_list_start: 1,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
@@ -354,7 +350,6 @@ impl<'a> Serializer<'a> {
             ordered_list_start: 1,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..496c1b4 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -53,7 +53,7 @@ impl<'a> Serializer<'a> {
         // Output header row
         if let Some(header_cells) = all_cells.first() {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
@@ -69,7 +69,7 @@ impl<'a> Serializer<'a> {
 
         // Output separator row with alignment
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
@@ -100,7 +100,7 @@ impl<'a> Serializer<'a> {
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
-- 
2.43.0


From bf4566cb01a6e25dd79b256cdd8f9305dca89286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 07/54] fix: never let wrapping or a heading text start another
 block

---
 src/serializer/document.rs |  20 +++++++-
 src/serializer/inline.rs   |  11 +++-
 src/serializer/wrap.rs     | 102 ++++++++++++++++++++++++++++++++-----
 3 files changed, 117 insertions(+), 16 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 72927c8..b271e4c 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -8,6 +8,18 @@ use super::Serializer;
 use super::state::{Directive, FormatSkipMode};
 use super::wrap;
 
+/// Whether a heading text, put on a line of its own, would be read as another kind of block.
+fn starts_other_block(text: &str) -> bool {
+    let word = text.split(' ').next().unwrap_or_default();
+    let digits = word.trim_end_matches(['.', ')']);
+    wrap::starts_block(text)
+        || (!digits.is_empty()
+            && digits.len() + 1 == word.len()
+            && digits.chars().all(|c| c.is_ascii_digit()))
+        || (text.starts_with('[') && text.contains("]:"))
+        || (text.starts_with('<') && text.trim_end().ends_with('>'))
+}
+
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
@@ -451,14 +463,18 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        if level == 1 && self.options.setext_h1 {
+        // A setext heading is read line by line like a paragraph, so a text that would
+        // start another block needs the ATX style
+        let setext_safe = !starts_other_block(&heading_text);
+
+        if level == 1 && self.options.setext_h1 && setext_safe {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
             self.output.push_str(&prefix);
             self.output.push_str(&"=".repeat(heading_text.width()));
             self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
+        } else if level == 2 && self.options.setext_h2 && setext_safe {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 3ae2b8b..a18345c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -82,9 +82,18 @@ impl<'a> Serializer<'a> {
                 }
                 text.push_str(delim);
             }
-            NodeValue::SoftBreak => {
+            NodeValue::SoftBreak | NodeValue::LineBreak => {
                 text.push(' ');
             }
+            NodeValue::HtmlInline(html) => {
+                // Preserve inline HTML as-is
+                text.push_str(html);
+            }
+            NodeValue::FootnoteReference(footnote_ref) => {
+                text.push_str("[^");
+                text.push_str(&footnote_ref.name);
+                text.push(']');
+            }
             NodeValue::Link(link) => {
                 // Handle reference-style links in headings
                 if let Some((link_text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..64a8313 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,68 @@
 
 use unicode_width::UnicodeWidthStr;
 
+/// Whether a line starting with this text, coming after another line of a paragraph,
+/// would not be read as a continuation of that paragraph: it would start a block of its
+/// own or turn the preceding lines into a heading, a table or a description list.
+pub fn starts_block(line: &str) -> bool {
+    let word = line.split(' ').next().unwrap_or_default();
+    let only = |chars: &str| !word.is_empty() && word.chars().all(|c| chars.contains(c));
+    // Setext underline, thematic break, bullet list marker, table delimiter row
+    // or description details marker
+    if only("=") || only("-*_") || only("-:|") || word == "+" || word == "~" {
+        return true;
+    }
+    // ATX heading
+    if only("#") && word.len() <= 6 {
+        return true;
+    }
+    // Block quote or fenced code block
+    if word.starts_with('>') || word.starts_with("~~~") || word.starts_with("```") {
+        return true;
+    }
+    // Ordered list marker (only a list starting at 1 can interrupt a paragraph)
+    if word.trim_start_matches('0') == "1." || word.trim_start_matches('0') == "1)" {
+        return true;
+    }
+    // Footnote definition
+    if word.starts_with("[^") && word.contains("]:") {
+        return true;
+    }
+    // HTML block (but not an autolink)
+    word.strip_prefix('<').is_some_and(|rest| {
+        rest.starts_with(|c: char| c.is_ascii_alphabetic() || "/!?".contains(c))
+            && !rest.contains(':')
+            && !rest.contains('@')
+    })
+}
+
+/// Split text at its soft break markers, joining lines that cannot stand on their own
+/// (see [`starts_block`]) with the line before.
+fn split_soft_breaks(text: &str) -> Vec<String> {
+    let mut lines: Vec<String> = Vec::new();
+    for line in text.split('\x00') {
+        match lines.last_mut() {
+            Some(previous) if starts_block(line.trim()) => {
+                previous.push(' ');
+                previous.push_str(line.trim());
+            }
+            _ => lines.push(line.to_string()),
+        }
+    }
+    lines
+}
+
+/// The end of a hard-broken segment: two trailing spaces, or a backslash where the spaces
+/// would be alone on their line.
+fn hard_break(segment: &str) -> &'static str {
+    let last_line = segment.rsplit('\x00').next().unwrap_or_default();
+    if last_line.trim().is_empty() {
+        "\\\n"
+    } else {
+        "  \n"
+    }
+}
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -24,8 +86,8 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     let mut result = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
-            // Add two trailing spaces for hard line break, then newline and prefix
-            result.push_str("  \n");
+            // Mark the hard line break, then newline and prefix
+            result.push_str(hard_break(hard_break_segments[idx - 1]));
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
@@ -40,11 +102,11 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_soft_breaks(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width);
+        return wrap_single_segment(&original_lines[0], prefix, prefix, line_width);
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -112,11 +174,11 @@ pub fn wrap_text_first_line(
 
     // Process each segment separated by hard line breaks
     let mut result = String::new();
-    let mut is_first_segment = true;
-    for segment in hard_break_segments {
+    for (idx, segment) in hard_break_segments.iter().enumerate() {
+        let is_first_segment = idx == 0;
         if !is_first_segment {
-            // Add two trailing spaces for hard line break, then newline
-            result.push_str("  \n");
+            // Mark the hard line break, then newline
+            result.push_str(hard_break(hard_break_segments[idx - 1]));
             result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
@@ -127,7 +189,6 @@ pub fn wrap_text_first_line(
         let wrapped =
             wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
         result.push_str(&wrapped);
-        is_first_segment = false;
     }
 
     result
@@ -141,11 +202,16 @@ fn wrap_text_first_line_segment(
     line_width: usize,
 ) -> String {
     // Split by soft break markers (original line breaks)
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_soft_breaks(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_single_segment(
+            &original_lines[0],
+            first_prefix,
+            continuation_prefix,
+            line_width,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -221,13 +287,23 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let chars = text.chars();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
     let mut in_backticks = false;
     let mut bracket_depth = 0;
 
-    for ch in chars {
+    for (pos, ch) in text.char_indices() {
+        if ch != ' '
+            && !in_backticks
+            && bracket_depth == 0
+            && !current_token.is_empty()
+            && !trailing_spaces.is_empty()
+            && starts_block(&text[pos..])
+        {
+            // This word must not start a line, so it stays with the word before
+            current_token.push_str(&trailing_spaces);
+            trailing_spaces.clear();
+        }
         if ch == '`' && bracket_depth == 0 {
             if in_backticks {
                 // End of backtick region
-- 
2.43.0


From 2d7ca41afafc25de35f19ff62eee85935d231dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 08/54] fix: keep adjacent lists of the same kind apart

---
 src/serializer/list.rs  | 42 ++++++++++++++++++++++++++++++++++++-----
 src/serializer/state.rs |  4 ++++
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 72252d9..1d0c08d 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, ListType, NodeValue};
 
 use super::Serializer;
+use crate::{OrderedMarker, UnorderedMarker};
 
 /// Whether a block inside a list item is serialized with its final newline
 /// (nested lists, code blocks, and blockquotes add their own newlines).
@@ -38,6 +39,21 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether a list comes right after an odd number of lists of the same type.  Every other
+    /// list of such a run takes another marker: with the same one they would be a single list.
+    fn follows_odd_run_of_lists<'b>(node: &'b AstNode<'b>, list_type: ListType) -> bool {
+        let mut odd = false;
+        let mut previous = node.previous_sibling();
+        while let Some(sibling) = previous {
+            match &sibling.data.borrow().value {
+                NodeValue::List(list) if list.list_type == list_type => odd = !odd,
+                _ => break,
+            }
+            previous = sibling.previous_sibling();
+        }
+        odd
+    }
+
     /// Whether an item holds a block that is separated from the preceding one by a blank line.
     fn item_needs_blank_line<'b>(item: &'b AstNode<'b>) -> bool {
         item.children()
@@ -58,6 +74,9 @@ impl<'a> Serializer<'a> {
         let old_max_items = self.ordered_list_max_items;
         let old_start = std::mem::replace(&mut self.ordered_list_start, start);
 
+        let alternate = Self::follows_odd_run_of_lists(node, list_type);
+        let old_marker_alternate = std::mem::replace(&mut self.list_marker_alternate, alternate);
+
         self.list_type = Some(list_type);
         // Some blocks are always set off by a blank line, which makes the list loose
         self.list_tight = tight && !node.children().any(Self::item_needs_blank_line);
@@ -77,6 +96,7 @@ impl<'a> Serializer<'a> {
         self.list_item_index = old_index;
         self.ordered_list_max_items = old_max_items;
         self.ordered_list_start = old_start;
+        self.list_marker_alternate = old_marker_alternate;
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -138,7 +158,11 @@ impl<'a> Serializer<'a> {
 
         match self.list_type {
             Some(ListType::Bullet) => {
-                let marker = self.options.unordered_marker.as_char();
+                let marker = match self.options.unordered_marker {
+                    UnorderedMarker::Hyphen if self.list_marker_alternate => '*',
+                    _ if self.list_marker_alternate => '-',
+                    marker => marker.as_char(),
+                };
                 let leading = " ".repeat(self.options.leading_spaces.get());
                 let trailing = " ".repeat(self.options.trailing_spaces.get());
                 if self.in_description_details && self.list_depth == 1 {
@@ -155,9 +179,14 @@ impl<'a> Serializer<'a> {
             Some(ListType::Ordered) => {
                 // Determine marker based on nesting level (odd=1,3,5..., even=2,4,6...)
                 let marker = if self.list_depth % 2 == 1 {
-                    self.options.odd_level_marker.as_char()
+                    self.options.odd_level_marker
                 } else {
-                    self.options.even_level_marker.as_char()
+                    self.options.even_level_marker
+                };
+                let marker = match marker {
+                    OrderedMarker::Period if self.list_marker_alternate => ')',
+                    _ if self.list_marker_alternate => '.',
+                    marker => marker.as_char(),
                 };
 
                 let current_num = (self.ordered_list_start + self.list_item_index - 1).to_string();
@@ -245,8 +274,11 @@ impl<'a> Serializer<'a> {
                         false
                     };
 
-                    self.output.push('\n');
-                    if has_blank_line_before {
+                    let follows_block = i > 0 && ends_with_newline(children[i - 1]);
+                    if !follows_block {
+                        self.output.push('\n');
+                    }
+                    if has_blank_line_before || follows_block {
                         // Blank line to separate from preceding paragraph
                         self.push_blank_line();
                     }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 332dc05..4256f00 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -269,6 +269,8 @@ pub struct Serializer<'a> {
     pub ordered_list_max_items: usize,
     /// Number of the first item of the current ordered list
     pub ordered_list_start: usize,
+    /// Whether the current list uses the other marker to stay apart from the list before it
+    pub list_marker_alternate: bool,
     /// Whether the original source ends with a newline
     pub source_ends_with_newline: bool,
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
@@ -311,6 +313,7 @@ impl<'a> Serializer<'a> {
             warnings: Vec::new(),
             ordered_list_max_items: 0,
             ordered_list_start: 1,
+            list_marker_alternate: false,
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_entry_list_depth: 0,
@@ -348,6 +351,7 @@ impl<'a> Serializer<'a> {
             warnings: Vec::new(),
             ordered_list_max_items: 0,
             ordered_list_start: 1,
+            list_marker_alternate: false,
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_entry_list_depth: 0,
-- 
2.43.0


From 9a309ca81dde3af347b95206a5f20d7869ae7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 09/54] fix: keep description lists inside their list item

---
 src/serializer/list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 1d0c08d..a25fab0 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -331,6 +331,7 @@ impl<'a> Serializer<'a> {
                 NodeValue::Heading(_)
                 | NodeValue::Table(_)
                 | NodeValue::HtmlBlock(_)
+                | NodeValue::DescriptionList
                 | NodeValue::ThematicBreak => {
                     // These are serialized without knowledge of the list item, so every
                     // line is indented here
@@ -342,9 +343,15 @@ impl<'a> Serializer<'a> {
                     }
                     let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
                     let old_blockquote_prefix = std::mem::take(&mut self.blockquote_prefix);
+                    let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
+                    let old_list_type = self.list_type.take();
+                    let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
                     let old_output = std::mem::take(&mut self.output);
                     self.serialize_node(child);
                     let block = std::mem::replace(&mut self.output, old_output);
+                    self.list_depth = old_list_depth;
+                    self.list_type = old_list_type;
+                    self.list_item_indent = old_list_item_indent;
                     self.blockquote_prefix = old_blockquote_prefix;
                     self.in_block_quote = was_in_block_quote;
                     let mut block = block.trim_end();
-- 
2.43.0


From 30f7dd4f1acb77cd7c002f0280ec90d4229076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 10/54] fix: transform adjacent single quotes the same way in
 every run

---
 src/serializer/punctuation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..685aa91 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -203,7 +203,13 @@ fn transform_single_quotes(text: &str) -> String {
             if expecting_open
                 && prev_is_letter
                 && (next_char.is_none()
-                    || next_char.is_some_and(|c| c.is_whitespace() || c.is_ascii_punctuation()))
+                    || next_char.is_some_and(|c| {
+                        // A curly single quote is one that an earlier run has transformed
+                        c.is_whitespace()
+                            || c.is_ascii_punctuation()
+                            || c == LEFT_SINGLE_QUOTE
+                            || c == RIGHT_SINGLE_QUOTE
+                    }))
             {
                 result.push(ch);
                 continue;
-- 
2.43.0


From 4a2177b7981aa32dec03e1526192f738781bc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 11/54] fix: write links so that target, title and label
 survive

---
 src/lib.rs                 |  14 ++++-
 src/serializer/document.rs |  24 ++++-----
 src/serializer/escape.rs   | 101 +++++++++++++++++++++++++++++++++++++
 src/serializer/inline.rs   |  23 +++++----
 src/serializer/link.rs     |  96 ++++++++++++++++++++---------------
 src/serializer/mod.rs      |  42 +++------------
 src/serializer/state.rs    |  22 +++++++-
 src/serializer/wrap.rs     |  26 +++++++---
 src/wasm.rs                |   2 +-
 9 files changed, 240 insertions(+), 110 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..2dd7434 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,12 +218,22 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
-    let root = parse_document(&arena, input, &comrak_options);
+    let root = parse_document(&arena, &with_final_newline(input), &comrak_options);
     let output = serializer::serialize_with_source(root, options, Some(input));
 
     Ok(output)
 }
 
+/// The input with its last line terminated: the parser does not recognize an empty list item
+/// at the very end of the text otherwise.
+pub(crate) fn with_final_newline(input: &str) -> std::borrow::Cow<'_, str> {
+    if input.ends_with('\n') {
+        input.into()
+    } else {
+        format!("{input}\n").into()
+    }
+}
+
 /// Result of formatting with warnings.
 #[derive(Debug)]
 pub struct FormatResult {
@@ -263,7 +273,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
-    let root = parse_document(&arena, input, &comrak_options);
+    let root = parse_document(&arena, &with_final_newline(input), &comrak_options);
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
     Ok(FormatResult {
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b271e4c..a881a1b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -8,18 +8,6 @@ use super::Serializer;
 use super::state::{Directive, FormatSkipMode};
 use super::wrap;
 
-/// Whether a heading text, put on a line of its own, would be read as another kind of block.
-fn starts_other_block(text: &str) -> bool {
-    let word = text.split(' ').next().unwrap_or_default();
-    let digits = word.trim_end_matches(['.', ')']);
-    wrap::starts_block(text)
-        || (!digits.is_empty()
-            && digits.len() + 1 == word.len()
-            && digits.chars().all(|c| c.is_ascii_digit()))
-        || (text.starts_with('[') && text.contains("]:"))
-        || (text.starts_with('<') && text.trim_end().ends_with('>'))
-}
-
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
@@ -463,9 +451,14 @@ impl<'a> Serializer<'a> {
             return;
         }
 
+        // A text of `#` characters only would be read as heading syntax in either style
+        if heading_text.chars().all(|c| c == '#') {
+            heading_text.insert(0, '\\');
+        }
+
         // A setext heading is read line by line like a paragraph, so a text that would
         // start another block needs the ATX style
-        let setext_safe = !starts_other_block(&heading_text);
+        let setext_safe = !wrap::starts_other_block(&heading_text);
 
         if level == 1 && self.options.setext_h1 && setext_safe {
             // Setext-style with '='
@@ -485,6 +478,11 @@ impl<'a> Serializer<'a> {
             // ATX-style for level 3+ or when setext is disabled
             self.output.push_str(&"#".repeat(level as usize));
             self.output.push(' ');
+            // A last word of `#` characters only would be read as a closing sequence
+            let last_word = heading_text.rsplit(' ').next().unwrap_or_default();
+            if !last_word.is_empty() && last_word.chars().all(|c| c == '#') {
+                heading_text.insert(heading_text.len() - 1, '\\');
+            }
             self.output.push_str(&heading_text);
             self.output.push('\n');
         }
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..2e06ec3 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -70,6 +70,107 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Position of the `]` matching a `[` just before the text, leaving out escaped brackets and
+/// those in code spans.
+pub fn find_closing_bracket(text: &str) -> Option<usize> {
+    let mut depth = 0;
+    let mut pos = 0;
+    while let Some(ch) = text[pos..].chars().next() {
+        match ch {
+            '\\' => pos += text[pos + 1..].chars().next().map_or(0, char::len_utf8),
+            '`' => {
+                let run = text[pos..].len() - text[pos..].trim_start_matches('`').len();
+                pos += run - 1 + code_span_len(&text[pos + run..], run);
+            }
+            '[' => depth += 1,
+            ']' if depth == 0 => return Some(pos),
+            ']' => depth -= 1,
+            _ => {}
+        }
+        pos += ch.len_utf8();
+    }
+    None
+}
+
+/// Length of the rest of a code span opened by a run of backticks, or 0 if nothing closes it.
+fn code_span_len(rest: &str, run: usize) -> usize {
+    let mut pos = 0;
+    while let Some(start) = rest[pos..].find('`') {
+        pos += start;
+        let len = rest[pos..].len() - rest[pos..].trim_start_matches('`').len();
+        pos += len;
+        if len == run {
+            return pos;
+        }
+    }
+    0
+}
+
+/// Whether a link text can be used as the label of a reference definition.
+pub fn is_valid_link_label(text: &str) -> bool {
+    let mut escaped = false;
+    for ch in text.chars() {
+        if !escaped && (ch == '[' || ch == ']') {
+            return false;
+        }
+        escaped = ch == '\\' && !escaped;
+    }
+    !text.trim().is_empty() && !text.starts_with('^') && text.chars().count() < 1000
+}
+
+/// Write a link destination and title so that they are read back unchanged.
+pub fn push_link_target(output: &mut String, url: &str, title: &str) {
+    let mut depth = 0i32;
+    let mut balanced = true;
+    for ch in url.chars() {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        balanced &= depth >= 0;
+    }
+    let bare = !url.is_empty()
+        && balanced
+        && depth == 0
+        && !url.starts_with('<')
+        && !url.contains(|c: char| c <= ' ' || c == '\x7f');
+    if bare {
+        push_escaped(output, url, "");
+    } else {
+        output.push('<');
+        push_escaped(output, url, "<>");
+        output.push('>');
+    }
+    if !title.is_empty() {
+        output.push_str(" \"");
+        push_escaped(output, title, "\"");
+        output.push('"');
+    }
+}
+
+/// Write text with a backslash before the given characters and before everything that would
+/// otherwise be read as an escape or an entity.
+fn push_escaped(output: &mut String, text: &str, special: &str) {
+    for (pos, ch) in text.char_indices() {
+        let rest = &text[pos + ch.len_utf8()..];
+        let ambiguous = match ch {
+            '\\' => {
+                rest.starts_with(|c: char| c.is_ascii_punctuation())
+                    || (rest.is_empty() && !special.is_empty())
+            }
+            '&' => rest.split_once(';').is_some_and(|(name, _)| {
+                !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '#')
+            }),
+            _ => special.contains(ch),
+        };
+        if ambiguous {
+            output.push('\\');
+        }
+        output.push(ch);
+    }
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index a18345c..d42cbaa 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -101,15 +101,18 @@ impl<'a> Serializer<'a> {
                 } else {
                     // For inline links, just output plain text (or format as inline?)
                     // In headings, we typically want reference style for external links
-                    let link_text = self.collect_raw_text(node);
+                    let mut link_text = String::new();
+                    for child in node.children() {
+                        self.collect_text_recursive(child, &mut link_text);
+                    }
                     if Self::is_external_url(&link.url) {
-                        // Headings don't have footnote references as siblings, so no need for collapsed style
+                        let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
                             text,
                             &link_text,
                             &link.url,
                             &link.title,
-                            false,
+                            use_collapsed,
                         );
                     } else {
                         Self::format_inline_link(text, &link_text, &link.url, &link.title);
@@ -118,7 +121,10 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Image(image) => {
                 // Preserve images in headings using inline syntax
-                let alt_text = self.collect_raw_text(node);
+                let mut alt_text = String::new();
+                for child in node.children() {
+                    self.collect_text_recursive(child, &mut alt_text);
+                }
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
             _ => {
@@ -200,7 +206,7 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = Self::is_autolink(&raw_text, &link.url, &link.title);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -233,12 +239,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_node(child, content);
                     }
                     content.push_str("](");
-                    content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
+                    escape::push_link_target(content, &link.url, &link.title);
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..42ef442 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
+use super::escape;
 
 impl<'a> Serializer<'a> {
     /// Format a reference-style link and write to output buffer.
@@ -14,21 +15,24 @@ impl<'a> Serializer<'a> {
         url: &str,
         title: &str,
     ) {
-        if label.starts_with('\x01') {
+        let definition_label = label.strip_prefix('\x01').unwrap_or(label);
+        if !self.add_reference(
+            definition_label.to_string(),
+            url.to_string(),
+            title.to_string(),
+        ) {
+            // The label already stands for another target
+            Self::format_inline_link(output, text, url, title);
+        } else if label.starts_with('\x01') {
             // Collapsed reference: [text][]
-            let actual_label = label.strip_prefix('\x01').unwrap();
             output.push('[');
             output.push_str(text);
             output.push_str("][]");
-
-            self.add_reference(actual_label.to_string(), url.to_string(), title.to_string());
         } else if text == label {
             // Shortcut reference: [text]
             output.push('[');
             output.push_str(text);
             output.push(']');
-
-            self.add_reference(label.to_string(), url.to_string(), title.to_string());
         } else {
             // Full reference: [text][label]
             output.push('[');
@@ -36,8 +40,6 @@ impl<'a> Serializer<'a> {
             output.push_str("][");
             output.push_str(label);
             output.push(']');
-
-            self.add_reference(label.to_string(), url.to_string(), title.to_string());
         }
     }
 
@@ -46,12 +48,7 @@ impl<'a> Serializer<'a> {
         output.push('[');
         output.push_str(text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        escape::push_link_target(output, url, title);
         output.push(')');
     }
 
@@ -77,25 +74,49 @@ impl<'a> Serializer<'a> {
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
+        if !escape::is_valid_link_label(&normalized_text)
+            || !self.add_reference(normalized_text.clone(), url.to_string(), title.to_string())
+        {
+            // The text cannot serve as a label, or already stands for another target
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
-        if use_collapsed {
+        // A lone `x` in brackets may read as a task list checkbox
+        if use_collapsed || normalized_text.eq_ignore_ascii_case("x") {
             output.push_str("[]");
         }
+    }
 
-        self.add_reference(normalized_text, url.to_string(), title.to_string());
+    /// Whether a link can be written as an autolink: its text is its URL, and the URL is
+    /// an absolute one without the characters that end an autolink.
+    pub(super) fn is_autolink(text: &str, url: &str, title: &str) -> bool {
+        let Some((scheme, _)) = url.split_once(':') else {
+            return false;
+        };
+        title.is_empty()
+            && text == url
+            && (2..=32).contains(&scheme.len())
+            && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || "+.-".contains(c))
+            && !url.contains(|c: char| c <= ' ' || c == '<' || c == '>')
     }
 
-    /// Check if the next sibling of a node starts with `[`.
+    /// Check if the next sibling of a node starts with `[`, or with another character that
+    /// would change the meaning of a shortcut reference before it (`(` or `:`).
     /// This includes footnote references, link references, and images.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
             let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => text.starts_with(['[', '(', ':']),
+                _ => false,
+            }
         } else {
             false
         }
@@ -110,21 +131,24 @@ impl<'a> Serializer<'a> {
         url: &str,
         title: &str,
     ) {
-        if label.starts_with('\x01') {
+        let definition_label = label.strip_prefix('\x01').unwrap_or(label);
+        if !self.add_reference(
+            definition_label.to_string(),
+            url.to_string(),
+            title.to_string(),
+        ) {
+            // The label already stands for another target
+            Self::format_inline_image(output, text, url, title);
+        } else if label.starts_with('\x01') {
             // Collapsed reference: ![alt][]
-            let actual_label = label.strip_prefix('\x01').unwrap();
             output.push_str("![");
             output.push_str(text);
             output.push_str("][]");
-
-            self.add_reference(actual_label.to_string(), url.to_string(), title.to_string());
         } else if text == label {
             // Shortcut reference: ![alt]
             output.push_str("![");
             output.push_str(text);
             output.push(']');
-
-            self.add_reference(label.to_string(), url.to_string(), title.to_string());
         } else {
             // Full reference: ![alt][label]
             output.push_str("![");
@@ -132,8 +156,6 @@ impl<'a> Serializer<'a> {
             output.push_str("][");
             output.push_str(label);
             output.push(']');
-
-            self.add_reference(label.to_string(), url.to_string(), title.to_string());
         }
     }
 
@@ -142,12 +164,7 @@ impl<'a> Serializer<'a> {
         output.push_str("![");
         output.push_str(alt_text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        escape::push_link_target(output, url, title);
         output.push(')');
     }
 
@@ -159,7 +176,7 @@ impl<'a> Serializer<'a> {
 
         // Check if this is an autolink (link text equals URL)
         let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = Self::is_autolink(&raw_text, url, title);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -188,12 +205,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_node(child);
             }
             self.output.push_str("](");
-            self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
+            escape::push_link_target(&mut self.output, url, title);
             self.output.push(')');
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 5c691f1..cb02536 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -103,35 +103,14 @@ impl<'a> Serializer<'a> {
         // Remove leading ! for images
         let source = source.strip_prefix('!').unwrap_or(&source);
 
-        // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
-        let chars: Vec<char> = source.chars().collect();
-
-        // Find the closing bracket at depth 0 (the one that closes the text/content part)
-        let mut depth = 0;
-        let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
-            match ch {
-                '[' => depth += 1,
-                ']' => {
-                    depth -= 1;
-                    if depth == 0 {
-                        text_end_pos = Some(i);
-                        break;
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        let text_end_pos = text_end_pos?;
-
-        // Convert char indices to strings for safe UTF-8 handling
-        let after_close: String = chars[text_end_pos + 1..].iter().collect();
-        let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
+        // Find the bracket closing the text/content part (not there for an autolink)
+        let rest = source.strip_prefix('[')?;
+        let text_end = escape::find_closing_bracket(rest)?;
+        let after_close = &rest[text_end + 1..];
+        let text = &rest[..text_end];
 
         // Normalize newlines to spaces in the text (for idempotency when text spans lines)
-        let text = escape::normalize_whitespace(&text);
+        let text = escape::normalize_whitespace(text);
 
         // If followed by "(", it's inline style
         if after_close.starts_with('(') {
@@ -141,7 +120,7 @@ impl<'a> Serializer<'a> {
         // If followed by "[", it's full or collapsed reference style
         if let Some(label_content) = after_close.strip_prefix('[') {
             // Find the label between [ and ]
-            if let Some(label_end) = label_content.find(']') {
+            if let Some(label_end) = escape::find_closing_bracket(label_content) {
                 let label = label_content[..label_end].to_string();
                 // Normalize label too
                 let label = escape::normalize_whitespace(&label);
@@ -252,12 +231,7 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
-        if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
-        }
+        escape::push_link_target(output, &reference.url, &reference.title);
         output.push('\n');
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 4256f00..4b8b965 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -252,6 +252,8 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// Target and title of every reference label used so far, by normalized label
+    pub reference_targets: std::collections::HashMap<String, (String, String)>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -305,6 +307,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -343,6 +346,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -468,7 +472,22 @@ impl<'a> Serializer<'a> {
     /// Add a reference link to the pending references.
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
-    pub fn add_reference(&mut self, label: String, url: String, title: String) {
+    ///
+    /// Returns false, without recording anything, if the label already stands for another
+    /// target.
+    pub fn add_reference(&mut self, label: String, url: String, title: String) -> bool {
+        // Labels are compared as Markdown does: case-insensitively, white space collapsed
+        let normalized = label
+            .split(|c: char| c.is_whitespace() || c == '\x00')
+            .filter(|word| !word.is_empty())
+            .collect::<Vec<_>>()
+            .join(" ")
+            .to_lowercase();
+        if let Some((known_url, known_title)) = self.reference_targets.get(&normalized) {
+            return *known_url == url && *known_title == title;
+        }
+        self.reference_targets
+            .insert(normalized, (url.clone(), title.clone()));
         let reference = ReferenceLink {
             label: label.clone(),
             url,
@@ -479,6 +498,7 @@ impl<'a> Serializer<'a> {
         } else {
             self.pending_references.insert(label, reference);
         }
+        true
     }
 
     /// Check if a URL is external (starts with http:// or https://).
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 64a8313..5a8b26c 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -31,9 +31,10 @@ pub fn starts_block(line: &str) -> bool {
     }
     // HTML block (but not an autolink)
     word.strip_prefix('<').is_some_and(|rest| {
-        rest.starts_with(|c: char| c.is_ascii_alphabetic() || "/!?".contains(c))
-            && !rest.contains(':')
-            && !rest.contains('@')
+        rest.starts_with(['/', '!', '?'])
+            || (rest.starts_with(|c: char| c.is_ascii_alphabetic())
+                && !rest.contains(':')
+                && !rest.contains('@'))
     })
 }
 
@@ -53,11 +54,24 @@ fn split_soft_breaks(text: &str) -> Vec<String> {
     lines
 }
 
+/// Whether this text, at the start of a paragraph or on a line of its own, would be read as
+/// another kind of block.
+pub fn starts_other_block(text: &str) -> bool {
+    let word = text.split(' ').next().unwrap_or_default();
+    let digits = word.trim_end_matches(['.', ')']);
+    starts_block(text)
+        || (!digits.is_empty()
+            && digits.len() + 1 == word.len()
+            && digits.chars().all(|c| c.is_ascii_digit()))
+        || (text.starts_with('[') && text.contains("]:"))
+        || (text.starts_with('<') && text.trim_end().ends_with('>'))
+}
+
 /// The end of a hard-broken segment: two trailing spaces, or a backslash where the spaces
-/// would be alone on their line.
+/// would be alone on their line or follow what would then be a block marker.
 fn hard_break(segment: &str) -> &'static str {
-    let last_line = segment.rsplit('\x00').next().unwrap_or_default();
-    if last_line.trim().is_empty() {
+    let last_line = segment.rsplit('\x00').next().unwrap_or_default().trim();
+    if last_line.is_empty() || starts_other_block(last_line) {
         "\\\n"
     } else {
         "  \n"
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..85b95b2 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -365,7 +365,7 @@ pub fn format_with_code_formatter(
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
-    let root = parse_document(&arena, input, &comrak_options);
+    let root = parse_document(&arena, &crate::with_final_newline(input), &comrak_options);
 
     // Create callback closure if provided
     let callback: crate::serializer::CodeFormatterCallback = code_formatter.map(|func| {
-- 
2.43.0


From ea122d1ba818a6f1f467b61998da5b2000262ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 12/54] fix: keep line breaks inside inline HTML soft and link
 labels trimmed

---
 src/serializer/escape.rs | 2 +-
 src/serializer/inline.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 2e06ec3..09e4fb3 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -115,7 +115,7 @@ pub fn is_valid_link_label(text: &str) -> bool {
         }
         escaped = ch == '\\' && !escaped;
     }
-    !text.trim().is_empty() && !text.starts_with('^') && text.chars().count() < 1000
+    !text.is_empty() && text.trim() == text && !text.starts_with('^') && text.chars().count() < 1000
 }
 
 /// Write a link destination and title so that they are read back unchanged.
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index d42cbaa..8cfa149 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -86,8 +86,8 @@ impl<'a> Serializer<'a> {
                 text.push(' ');
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                text.push_str(html);
+                // Preserve inline HTML as-is, on a single line
+                text.push_str(&html.replace('\n', " "));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 text.push_str("[^");
@@ -281,8 +281,8 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                content.push_str(html);
+                // Preserve inline HTML as-is; its line breaks are soft ones
+                content.push_str(&html.replace('\n', "\x00"));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
-- 
2.43.0


From 110a3c3f21fcb034a53f5c6151afb9a350b24995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 13/54] fix: keep quotes, tables, headings and empty details of
 description lists in place

---
 src/serializer/document.rs | 47 +++++++++++++++++++++++---------------
 src/serializer/list.rs     | 44 +++++++++++++++++++++--------------
 2 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a881a1b..6e04778 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -306,6 +306,12 @@ impl<'a> Serializer<'a> {
             String::new()
         };
 
+        if children.is_empty() {
+            // A marker needs white space after it even if nothing follows
+            self.output.push_str(&blockquote_prefix);
+            self.output.push_str(":   \n");
+        }
+
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -349,9 +355,9 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.description_details_first_list = false;
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts as first child: output marker, newline,
-                        // then serialize with proper list_item_indent for continuation lines
+                    NodeValue::Alert(_) => {
+                        // Alerts as first child: output marker, newline, then serialize
+                        // with proper list_item_indent for continuation lines
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":\n");
                         let old_list_item_indent =
@@ -360,15 +366,13 @@ impl<'a> Serializer<'a> {
                         self.list_item_indent = old_list_item_indent;
                     }
                     _ => {
-                        // Other block types: serialize normally with indent
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        // Other block types start on the marker line
+                        self.serialize_in_details(child, &blockquote_prefix, ":   ");
                     }
                 }
             } else {
                 // Subsequent children: need blank line and 4-space indent
-                self.output.push('\n');
+                self.push_blank_line();
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
@@ -397,19 +401,9 @@ impl<'a> Serializer<'a> {
                         // Lists handle their own indentation via in_description_details flag
                         self.serialize_node(child);
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts need list_item_indent to be set
-                        // so that their continuation lines are properly indented
-                        let old_list_item_indent =
-                            std::mem::replace(&mut self.list_item_indent, "    ".to_string());
-                        self.serialize_node(child);
-                        self.list_item_indent = old_list_item_indent;
-                    }
                     _ => {
                         // Other block types
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
-                        self.serialize_node(child);
+                        self.serialize_in_details(child, &blockquote_prefix, "    ");
                     }
                 }
             }
@@ -418,6 +412,21 @@ impl<'a> Serializer<'a> {
         self.in_description_details = was_in_description_details;
     }
 
+    /// Serialize a block of description details, indenting each of its lines.
+    fn serialize_in_details<'b>(&mut self, node: &'b AstNode<'b>, prefix: &str, marker: &str) {
+        let block = self.serialize_apart(node);
+        for (i, line) in block.trim_end().split('\n').enumerate() {
+            if line.is_empty() {
+                self.output.push_str(prefix.trim_end());
+            } else {
+                self.output.push_str(prefix);
+                self.output.push_str(if i == 0 { marker } else { "    " });
+            }
+            self.output.push_str(line);
+            self.output.push('\n');
+        }
+    }
+
     pub(super) fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8) {
         // Collect heading text first
         let mut heading_text = self.collect_text(node);
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index a25fab0..8b286c2 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -118,16 +118,18 @@ impl<'a> Serializer<'a> {
             self.push_blank_line();
         }
 
-        // Add block quote prefix if we're inside a block quote
-        let quote_prefix = self.quote_line_prefix();
-        self.output.push_str(&quote_prefix);
-
         // Check if this is the first item of a list that starts on the same line as `:` in
         // definition details. In that case, skip base indentation for the first item only.
         let is_first_item_on_colon_line = self.description_details_first_list
             && self.list_item_index == 1
             && self.list_depth == 1;
 
+        // Add block quote prefix if we're inside a block quote
+        let quote_prefix = self.quote_line_prefix();
+        if !is_first_item_on_colon_line {
+            self.output.push_str(&quote_prefix);
+        }
+
         // Add extra indentation if inside a description details block
         // (lists inside definition list details need 5-space base indent: "     ")
         // Skip this for the first item when it's on the same line as the colon
@@ -341,19 +343,7 @@ impl<'a> Serializer<'a> {
                         }
                         self.push_blank_line();
                     }
-                    let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
-                    let old_blockquote_prefix = std::mem::take(&mut self.blockquote_prefix);
-                    let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
-                    let old_list_type = self.list_type.take();
-                    let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
-                    let old_output = std::mem::take(&mut self.output);
-                    self.serialize_node(child);
-                    let block = std::mem::replace(&mut self.output, old_output);
-                    self.list_depth = old_list_depth;
-                    self.list_type = old_list_type;
-                    self.list_item_indent = old_list_item_indent;
-                    self.blockquote_prefix = old_blockquote_prefix;
-                    self.in_block_quote = was_in_block_quote;
+                    let block = self.serialize_apart(child);
                     let mut block = block.trim_end();
                     // Next to a list marker a thematic break may read as one long thematic
                     // break, so it starts on its own line
@@ -393,4 +383,24 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
     }
+
+    /// Serialize a block as if it stood at the top level, for the caller to indent.
+    pub(super) fn serialize_apart<'b>(&mut self, node: &'b AstNode<'b>) -> String {
+        let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
+        let was_in_description_details = std::mem::replace(&mut self.in_description_details, false);
+        let old_blockquote_prefix = std::mem::take(&mut self.blockquote_prefix);
+        let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
+        let old_list_type = self.list_type.take();
+        let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let old_output = std::mem::take(&mut self.output);
+        self.serialize_node(node);
+        let block = std::mem::replace(&mut self.output, old_output);
+        self.list_depth = old_list_depth;
+        self.list_type = old_list_type;
+        self.list_item_indent = old_list_item_indent;
+        self.blockquote_prefix = old_blockquote_prefix;
+        self.in_description_details = was_in_description_details;
+        self.in_block_quote = was_in_block_quote;
+        block
+    }
 }
-- 
2.43.0


From 0314c894313cc0be2d005ed46500877399f5ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 14/54] fix: fences and info strings that read back as the same
 code block

---
 src/serializer/code.rs     | 150 +++++++++----------------------------
 src/serializer/document.rs |  10 +--
 src/serializer/escape.rs   |  10 ++-
 3 files changed, 46 insertions(+), 124 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 54c70f0..cc14b7f 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -1,8 +1,8 @@
 //! Code block serialization logic.
 
-use comrak::nodes::NodeCodeBlock;
-
 use super::Serializer;
+use super::escape;
+use crate::FenceChar;
 
 /// The keyword to skip code formatting for a code block.
 const NO_FORMAT_KEYWORD: &str = "hongdown-no-format";
@@ -75,73 +75,45 @@ impl<'a> Serializer<'a> {
         None
     }
 
-    /// Serialize a code block with indent for description list details.
-    pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
-        let fence_char = self.options.fence_char.as_char();
-        let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
-
-        // Parse info to get language and check for no-format flag
-        let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
-
-        // Determine language for formatter lookup (use default if empty)
-        let language = if parsed_lang.is_empty() {
-            &self.options.default_language
+    /// The opening fence line (with its info string) and the closing fence of a code block.
+    fn code_fences(&self, info: &str, content: &str) -> (String, String) {
+        // The info string of a backtick fence cannot contain backticks
+        let fence_char = if info.contains('`') {
+            FenceChar::Tilde.as_char()
         } else {
-            parsed_lang
+            self.options.fence_char.as_char()
         };
 
-        // Determine the info string to output
-        let output_info = if info_output.is_empty() && !self.options.default_language.is_empty() {
-            self.options.default_language.as_str()
-        } else {
-            info_output
-        };
+        // Find the longest sequence of fence characters in the content
+        let max_fence_in_content = content
+            .lines()
+            .filter_map(|line| {
+                let trimmed = line.trim_start();
+                if trimmed.starts_with(fence_char) {
+                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
+                } else {
+                    None
+                }
+            })
+            .max()
+            .unwrap_or(0);
 
-        // Try to format the code if a formatter is configured and not skipped
-        let formatted_literal = if !language.is_empty() && !skip_format {
-            self.try_format_code(language, &code.literal)
-        } else {
-            None
-        };
-        let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
+        // Fence length must be greater than any fence sequence in content
+        let min_fence_length = self.options.min_fence_length.get();
+        let fence_length = std::cmp::max(min_fence_length, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
-        if !output_info.is_empty() {
-            if self.options.space_after_fence {
-                self.output.push(' ');
+        let mut opening = fence.clone();
+        if !info.is_empty() {
+            if self.options.space_after_fence || info.starts_with(fence_char) {
+                opening.push(' ');
             }
-            self.output.push_str(output_info);
-        }
-        self.output.push('\n');
-        // Add indent to each line of code (skip indent for empty lines)
-        for line in literal.lines() {
-            if !line.is_empty() {
-                self.output.push_str(indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
+            escape::push_escaped(&mut opening, info, "");
         }
-        self.output.push_str(indent);
-        self.output.push_str(fence);
-        self.output.push('\n');
+        (opening, fence)
     }
 
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
-        // Determine the minimum fence length from options
-        let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
-
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
 
@@ -167,35 +139,13 @@ impl<'a> Serializer<'a> {
         };
         let content = formatted_literal.as_deref().unwrap_or(literal);
 
-        // Find the longest sequence of fence characters in the content
-        let max_fence_in_content = content
-            .lines()
-            .filter_map(|line| {
-                let trimmed = line.trim_start();
-                if trimmed.starts_with(fence_char) {
-                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
-                } else {
-                    None
-                }
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Fence length must be greater than any fence sequence in content
-        let fence_length = std::cmp::max(min_fence_length, max_fence_in_content + 1);
-        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        let (opening, closing) = self.code_fences(output_info, content);
 
         // Opening fence
         if self.in_block_quote {
             self.output.push_str(&self.blockquote_prefix);
         }
-        self.output.push_str(&fence);
-        if !output_info.is_empty() {
-            if self.options.space_after_fence {
-                self.output.push(' ');
-            }
-            self.output.push_str(output_info);
-        }
+        self.output.push_str(&opening);
         self.output.push('\n');
 
         // Content lines
@@ -215,7 +165,7 @@ impl<'a> Serializer<'a> {
         if self.in_block_quote {
             self.output.push_str(&self.blockquote_prefix);
         }
-        self.output.push_str(&fence);
+        self.output.push_str(&closing);
         self.output.push('\n');
     }
 
@@ -227,10 +177,6 @@ impl<'a> Serializer<'a> {
         literal: &str,
         indent: &str,
     ) {
-        // Determine the minimum fence length from options
-        let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
-
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
 
@@ -256,32 +202,10 @@ impl<'a> Serializer<'a> {
         };
         let content = formatted_literal.as_deref().unwrap_or(literal);
 
-        // Find the longest sequence of fence characters in the content
-        let max_fence_in_content = content
-            .lines()
-            .filter_map(|line| {
-                let trimmed = line.trim_start();
-                if trimmed.starts_with(fence_char) {
-                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
-                } else {
-                    None
-                }
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Fence length must be greater than any fence sequence in content
-        let fence_length = std::cmp::max(min_fence_length, max_fence_in_content + 1);
-        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        let (opening, closing) = self.code_fences(output_info, content);
 
         // Output opening fence with optional language
-        self.output.push_str(&fence);
-        if !output_info.is_empty() {
-            if self.options.space_after_fence {
-                self.output.push(' ');
-            }
-            self.output.push_str(output_info);
-        }
+        self.output.push_str(&opening);
         self.output.push('\n');
 
         // Output content with indentation (skip indent for empty lines)
@@ -301,7 +225,7 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(indent);
-        self.output.push_str(&fence);
+        self.output.push_str(&closing);
         self.output.push('\n');
     }
 }
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 6e04778..1e5f00d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -340,10 +340,7 @@ impl<'a> Serializer<'a> {
                         self.output.push('\n');
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(
-                            code,
-                            &format!("{}    ", blockquote_prefix),
-                        );
+                        self.serialize_code_block_indented(&code.info, &code.literal, "    ");
                     }
                     NodeValue::List(_) => {
                         // List as first child: output marker with 4 spaces, then list on same line
@@ -392,10 +389,7 @@ impl<'a> Serializer<'a> {
                     NodeValue::CodeBlock(code) => {
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(
-                            code,
-                            &format!("{}    ", blockquote_prefix),
-                        );
+                        self.serialize_code_block_indented(&code.info, &code.literal, "    ");
                     }
                     NodeValue::List(_) => {
                         // Lists handle their own indentation via in_description_details flag
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 09e4fb3..ba05e53 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -149,9 +149,9 @@ pub fn push_link_target(output: &mut String, url: &str, title: &str) {
     }
 }
 
-/// Write text with a backslash before the given characters and before everything that would
-/// otherwise be read as an escape or an entity.
-fn push_escaped(output: &mut String, text: &str, special: &str) {
+/// Write text with a backslash before the given characters and with everything that would
+/// otherwise be read as an escape or an entity kept literal.
+pub fn push_escaped(output: &mut String, text: &str, special: &str) {
     for (pos, ch) in text.char_indices() {
         let rest = &text[pos + ch.len_utf8()..];
         let ambiguous = match ch {
@@ -164,6 +164,10 @@ fn push_escaped(output: &mut String, text: &str, special: &str) {
             }),
             _ => special.contains(ch),
         };
+        if ambiguous && ch == '&' {
+            output.push_str("&amp;");
+            continue;
+        }
         if ambiguous {
             output.push('\\');
         }
-- 
2.43.0


From 7103bbd8c2131a926bfa976689f940cc0fe8ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 15/54] fix: keep every block of a footnote definition inside
 it

---
 src/serializer/mod.rs   | 182 ++++++++++++++--------------------------
 src/serializer/state.rs |   2 +-
 2 files changed, 66 insertions(+), 118 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index cb02536..9e78bd3 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -20,7 +20,6 @@ pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
 use comrak::nodes::{AstNode, NodeValue};
-use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
@@ -375,112 +374,68 @@ impl<'a> Serializer<'a> {
 
     /// Write a single footnote definition to output, wrapping at line_width
     fn write_footnote(&mut self, footnote: &state::FootnoteDefinition) {
-        let prefix = format!("[^{}]: ", footnote.name);
-        // Continuation indent matches prefix length for alignment
-        let continuation_indent = " ".repeat(prefix.len());
-
-        // If footnote has block elements, output pre-serialized content with indentation
+        // Footnotes with block elements are serialized in full beforehand
         if footnote.has_blocks {
-            let lines: Vec<&str> = footnote.content.lines().collect();
-            for (i, line) in lines.iter().enumerate() {
-                if i == 0 {
-                    self.output.push_str(&prefix);
-                    self.output.push_str(line);
-                } else if line.is_empty() {
-                    // Empty line - just add newline
-                    self.output.push_str("");
-                } else {
-                    // Add continuation indent
-                    self.output.push_str(&continuation_indent);
-                    self.output.push_str(line);
-                }
-                self.output.push('\n');
-            }
-            return;
-        }
-
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
-
-        // Replace SoftBreak marker (\x00) with space before processing
-        let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
-            self.output.push_str(&prefix);
-            self.output.push('\n');
+            self.output.push_str(&footnote.content);
             return;
         }
 
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
+        let prefix = format!("[^{}]: ", footnote.name);
+        // Continuation indent matches prefix length for alignment
+        let continuation_indent = " ".repeat(prefix.len());
+        // Original line breaks are not kept
+        let lines: Vec<&str> = footnote.content.split('\x00').map(str::trim).collect();
+        let wrapped = wrap::wrap_single_segment(
+            &lines.join(" "),
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        self.output.push('\n');
     }
 
-    /// Serialize footnote content that contains block elements.
-    /// Returns the serialized content without the footnote prefix.
-    fn serialize_footnote_blocks<'b>(&mut self, node: &'b AstNode<'b>) -> String {
-        let mut result = String::new();
-        let mut first_block = true;
-
-        for child in node.children() {
-            let block_content = self.serialize_single_block(child);
+    /// Serialize a whole footnote definition that contains block elements.  Its blocks are
+    /// indented by four spaces, as deep as its contents start.
+    fn serialize_footnote_blocks<'b>(&mut self, node: &'b AstNode<'b>, name: &str) -> String {
+        const INDENT: &str = "    ";
+        let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, true);
+        let old_prefix = std::mem::replace(&mut self.blockquote_prefix, INDENT.to_string());
+        let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
+        let old_list_type = self.list_type.take();
+        let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let was_in_details = std::mem::replace(&mut self.in_description_details, false);
+        let old_output = std::mem::take(&mut self.output);
 
-            if !first_block && !block_content.is_empty() {
-                // Add blank line between blocks (need two newlines for a blank line)
-                result.push_str("\n\n");
+        for (i, child) in node.children().enumerate() {
+            if i > 0 {
+                self.push_blank_line();
+            } else if matches!(&child.data.borrow().value, NodeValue::Paragraph) {
+                let mut content = String::new();
+                self.collect_inline_content(child, &mut content);
+                let wrapped = wrap::wrap_text_first_line(
+                    content.trim(),
+                    &format!("[^{name}]: "),
+                    INDENT,
+                    self.options.line_width.get(),
+                );
+                self.output.push_str(&wrapped);
+                self.output.push('\n');
+                continue;
+            } else {
+                self.output.push_str(&format!("[^{name}]:\n"));
             }
-            result.push_str(&block_content);
-            first_block = false;
+            self.serialize_node(child);
         }
 
-        result.trim_end().to_string()
-    }
-
-    /// Serialize a single block element for footnote content.
-    fn serialize_single_block<'b>(&mut self, node: &'b AstNode<'b>) -> String {
-        // Use the existing serializer infrastructure by temporarily capturing output
-        let old_output = std::mem::take(&mut self.output);
-        self.serialize_node(node);
-        let block_output = std::mem::replace(&mut self.output, old_output);
-        block_output.trim_end().to_string()
+        let definition = std::mem::replace(&mut self.output, old_output);
+        self.in_description_details = was_in_details;
+        self.list_depth = old_list_depth;
+        self.list_type = old_list_type;
+        self.list_item_indent = old_list_item_indent;
+        self.blockquote_prefix = old_prefix;
+        self.in_block_quote = was_in_block_quote;
+        definition
     }
 
     pub fn serialize_node<'b>(&mut self, node: &'b AstNode<'b>) {
@@ -624,25 +579,18 @@ impl<'a> Serializer<'a> {
                     .get_reference_line(&footnote_def.name)
                     .unwrap_or(0);
 
-                // Check if footnote contains block elements (code blocks, lists, etc.)
-                let has_blocks = {
-                    let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                // Anything but a single paragraph without hard line breaks is serialized
+                // block by block
+                let mut children = node.children();
+                let has_blocks = match (children.next(), children.next()) {
+                    (None, _) => false,
+                    (Some(child), None) => {
+                        !matches!(&child.data.borrow().value, NodeValue::Paragraph)
+                            || child
+                                .descendants()
+                                .any(|n| matches!(&n.data.borrow().value, NodeValue::LineBreak))
+                    }
+                    _ => true,
                 };
 
                 // Collect content from children
@@ -652,7 +600,7 @@ impl<'a> Serializer<'a> {
 
                 let content = if has_blocks {
                     // Serialize block elements properly
-                    self.serialize_footnote_blocks(node)
+                    self.serialize_footnote_blocks(node, &footnote_def.name)
                 } else {
                     // Simple inline content - use existing approach
                     let mut content = String::new();
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 4b8b965..bad8e09 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -106,7 +106,7 @@ pub struct FootnoteDefinition {
     /// Line number where the footnote was referenced (1-indexed)
     pub reference_line: usize,
     /// Whether the footnote contains block elements (code blocks, etc.)
-    /// When true, content contains pre-serialized block content with proper indentation.
+    /// When true, content is the whole definition, already serialized.
     pub has_blocks: bool,
 }
 
-- 
2.43.0


From a12daf88229717595f790babfe81deaf72b06765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 16/54] fix: align the contents of list items with the marker
 actually written

---
 src/serializer/block.rs    |   6 --
 src/serializer/document.rs |  50 +++------
 src/serializer/list.rs     | 211 +++++++++++++++++--------------------
 src/serializer/state.rs    |   9 +-
 src/serializer/wrap.rs     |   9 +-
 5 files changed, 117 insertions(+), 168 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 42adc9c..5259b86 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -8,7 +8,6 @@ use super::Serializer;
 struct BlockquoteState {
     was_in_block_quote: bool,
     old_blockquote_prefix: String,
-    old_blockquote_entry_list_depth: usize,
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
@@ -24,9 +23,6 @@ impl<'a> Serializer<'a> {
         self.blockquote_prefix.push_str(&self.list_item_indent);
         self.blockquote_prefix.push_str("> ");
 
-        let old_blockquote_entry_list_depth =
-            std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
-
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
@@ -34,7 +30,6 @@ impl<'a> Serializer<'a> {
         BlockquoteState {
             was_in_block_quote,
             old_blockquote_prefix,
-            old_blockquote_entry_list_depth,
             old_list_item_indent,
             old_list_type,
             old_list_depth,
@@ -62,7 +57,6 @@ impl<'a> Serializer<'a> {
         self.list_depth = state.old_list_depth;
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
-        self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
         self.blockquote_prefix = state.old_blockquote_prefix;
         self.in_block_quote = state.was_in_block_quote;
     }
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1e5f00d..785abde 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -319,14 +319,13 @@ impl<'a> Serializer<'a> {
                 // First child: start with `:   ` marker
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str(":   ");
+                        let first_prefix = format!("{}:   ", blockquote_prefix);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
-                            "",
+                            &first_prefix,
                             &continuation,
                             self.options.line_width.get(),
                         );
@@ -372,14 +371,13 @@ impl<'a> Serializer<'a> {
                 self.push_blank_line();
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        let first_prefix = format!("{}    ", blockquote_prefix);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
-                            "",
+                            &first_prefix,
                             &continuation,
                             self.options.line_width.get(),
                         );
@@ -508,41 +506,19 @@ impl<'a> Serializer<'a> {
         self.collect_inline_content(node, &mut inline_content);
 
         if self.list_type.is_some() {
-            // Inside a list item, wrap with proper continuation indent
-            // First line has no prefix (marker already output)
-            // Continuation lines need appropriate indent
-            //
-            // There are two cases:
-            // 1. List inside blockquote: list_depth > blockquote_entry_list_depth
-            //    - Use base_indent for the inner list's continuation
-            // 2. Blockquote inside list: list_depth == blockquote_entry_list_depth
-            //    - Don't add base_indent, just use the outer prefix
-            let inner_list_depth = self
-                .list_depth
-                .saturating_sub(self.blockquote_entry_list_depth);
-            let base_indent = if self.in_description_details && inner_list_depth > 0 {
-                // Inside description details, add extra 5-space indent for `:    ` prefix.
-                // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
-                // For nested lists, use the standard 4-char indent.
-                let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(inner_list_depth.saturating_sub(1));
-                format!(
-                    "     {}{}",
-                    " ".repeat(first_level_marker_width),
-                    nested_indent
-                )
+            // Inside a list item, the first line follows the marker or indentation already
+            // output; continuation lines align with the contents of the item
+            let continuation = format!("{}{}", self.quote_line_prefix(), self.list_item_indent);
+            let line_start = self.output.rfind('\n').map_or(0, |pos| pos + 1);
+            let first_prefix = if self.output[line_start..] == continuation {
+                self.output.truncate(line_start);
+                continuation.clone()
             } else {
-                "    ".repeat(inner_list_depth)
-            };
-            let continuation = if self.in_block_quote {
-                // Inside a blockquote, continuation lines need > prefix + indent
-                format!("{}{}", self.blockquote_prefix, base_indent)
-            } else {
-                base_indent
+                String::new()
             };
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim(),
-                "",
+                &first_prefix,
                 &continuation,
                 self.options.line_width.get(),
             );
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 8b286c2..03122e8 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -22,13 +22,27 @@ impl<'a> Serializer<'a> {
             .count()
     }
 
-    /// Calculate the width of a list item marker.
-    /// This is used to determine the indentation for continuation lines.
+    /// Spaces before the bullets of the current list.
+    fn bullet_leading_spaces(&self) -> usize {
+        if self.in_description_details && self.list_depth == 1 {
+            // Inside description details at top level: "-  " (no leading space)
+            0
+        } else {
+            self.options.leading_spaces.get()
+        }
+    }
+
+    /// Spaces after bullets.  Without any, the marker would not start a list item.
+    fn bullet_trailing_spaces(&self) -> usize {
+        self.options.trailing_spaces.get().max(1)
+    }
+
+    /// Calculate the configured width of the markers of the current list.
     fn calculate_marker_width(&self) -> usize {
         match self.list_type {
             Some(ListType::Bullet) => {
                 // " -  " = leading_spaces + 1 (marker) + trailing_spaces
-                self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get()
+                self.bullet_leading_spaces() + 1 + self.bullet_trailing_spaces()
             }
             Some(ListType::Ordered) => {
                 // Fixed width based on ordered_list_indent_width (default 4)
@@ -39,6 +53,73 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// The marker of the current list item, with the spaces around it.
+    fn list_item_marker(&self) -> String {
+        match self.list_type {
+            Some(ListType::Bullet) => {
+                let marker = match self.options.unordered_marker {
+                    UnorderedMarker::Hyphen if self.list_marker_alternate => '*',
+                    _ if self.list_marker_alternate => '-',
+                    marker => marker.as_char(),
+                };
+                let leading = " ".repeat(self.bullet_leading_spaces());
+                let trailing = " ".repeat(self.bullet_trailing_spaces());
+                format!("{leading}{marker}{trailing}")
+            }
+            Some(ListType::Ordered) => {
+                // Determine marker based on nesting level (odd=1,3,5..., even=2,4,6...)
+                let marker = if self.list_depth % 2 == 1 {
+                    self.options.odd_level_marker
+                } else {
+                    self.options.even_level_marker
+                };
+                let marker = match marker {
+                    OrderedMarker::Period if self.list_marker_alternate => ')',
+                    _ if self.list_marker_alternate => '.',
+                    marker => marker.as_char(),
+                };
+                let number = (self.ordered_list_start + self.list_item_index - 1).to_string();
+
+                // Calculate trailing spaces to maintain fixed marker width
+                // marker_width = number + marker_char + trailing
+                // trailing = marker_width - number - 1 (minimum 1; more than 4 would make
+                // the contents an indented code block)
+                let trailing_count = self
+                    .calculate_marker_width()
+                    .saturating_sub(number.len() + 1)
+                    .clamp(1, 4);
+                format!("{number}{marker}{}", " ".repeat(trailing_count))
+            }
+            None => String::new(),
+        }
+    }
+
+    /// Indentation of the items of a list about to be serialized.
+    fn list_indent_for(&self, list_type: ListType) -> usize {
+        if self.list_depth == 0 {
+            // Lists inside definition list details need a 5-space base indent
+            return if self.in_description_details { 5 } else { 0 };
+        }
+        // Use different indent_width for ordered vs unordered lists
+        let (indent_width, leading) = match list_type {
+            ListType::Ordered => (self.options.ordered_list_indent_width.get(), 0),
+            ListType::Bullet => (
+                self.options.indent_width.get(),
+                self.options.leading_spaces.get(),
+            ),
+        };
+        // A list reaching the contents of its parent item with the configured widths does
+        // so next to a wider marker too (like "1000. "), and none reaches so far beyond
+        // them that it would be an indented code block
+        let marker_width = self.list_item_indent.len().saturating_sub(self.list_indent);
+        let step = if indent_width + leading >= self.calculate_marker_width() {
+            indent_width.max(marker_width.saturating_sub(leading))
+        } else {
+            indent_width
+        };
+        self.list_indent + step.min((marker_width + 3).saturating_sub(leading))
+    }
+
     /// Whether a list comes right after an odd number of lists of the same type.  Every other
     /// list of such a run takes another marker: with the same one they would be a single list.
     fn follows_odd_run_of_lists<'b>(node: &'b AstNode<'b>, list_type: ListType) -> bool {
@@ -77,6 +158,9 @@ impl<'a> Serializer<'a> {
         let alternate = Self::follows_odd_run_of_lists(node, list_type);
         let old_marker_alternate = std::mem::replace(&mut self.list_marker_alternate, alternate);
 
+        let indent = self.list_indent_for(list_type);
+        let old_list_indent = std::mem::replace(&mut self.list_indent, indent);
+
         self.list_type = Some(list_type);
         // Some blocks are always set off by a blank line, which makes the list loose
         self.list_tight = tight && !node.children().any(Self::item_needs_blank_line);
@@ -91,6 +175,7 @@ impl<'a> Serializer<'a> {
         self.serialize_children(node);
 
         self.list_depth -= 1;
+        self.list_indent = old_list_indent;
         self.list_type = old_list_type;
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
@@ -130,82 +215,13 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&quote_prefix);
         }
 
-        // Add extra indentation if inside a description details block
-        // (lists inside definition list details need 5-space base indent: "     ")
-        // Skip this for the first item when it's on the same line as the colon
-        let desc_base_indent = if self.in_description_details && !is_first_item_on_colon_line {
-            "     "
-        } else {
-            ""
-        };
-
-        // Calculate indentation for nested lists
-        // Level 1: " -  " (leading space + hyphen + trailing spaces)
-        // Level 2+: indent_width spaces per nesting level, then " -  " prefix
-        // Use different indent_width for ordered vs unordered lists
-        let indent_width = match self.list_type {
-            Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
-            _ => self.options.indent_width.get(),
-        };
-        if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
-            self.output.push_str(&indent);
-        } else {
-            self.output.push_str(desc_base_indent);
+        // Skip the indentation of the first item when it's on the same line as the colon
+        if !is_first_item_on_colon_line {
+            self.output.push_str(&" ".repeat(self.list_indent));
         }
 
-        match self.list_type {
-            Some(ListType::Bullet) => {
-                let marker = match self.options.unordered_marker {
-                    UnorderedMarker::Hyphen if self.list_marker_alternate => '*',
-                    _ if self.list_marker_alternate => '-',
-                    marker => marker.as_char(),
-                };
-                let leading = " ".repeat(self.options.leading_spaces.get());
-                let trailing = " ".repeat(self.options.trailing_spaces.get());
-                if self.in_description_details && self.list_depth == 1 {
-                    // Inside description details at top level: "-  " (no leading space)
-                    self.output.push(marker);
-                    self.output.push_str(&trailing);
-                } else {
-                    // All other cases: " -  " (leading spaces + marker + trailing spaces)
-                    self.output.push_str(&leading);
-                    self.output.push(marker);
-                    self.output.push_str(&trailing);
-                }
-            }
-            Some(ListType::Ordered) => {
-                // Determine marker based on nesting level (odd=1,3,5..., even=2,4,6...)
-                let marker = if self.list_depth % 2 == 1 {
-                    self.options.odd_level_marker
-                } else {
-                    self.options.even_level_marker
-                };
-                let marker = match marker {
-                    OrderedMarker::Period if self.list_marker_alternate => ')',
-                    _ if self.list_marker_alternate => '.',
-                    marker => marker.as_char(),
-                };
-
-                let current_num = (self.ordered_list_start + self.list_item_index - 1).to_string();
-                let current_num_width = current_num.len();
-
-                // Calculate trailing spaces to maintain fixed marker width
-                // marker_width = number + marker_char + trailing
-                // trailing = marker_width - number - 1 (minimum 1)
-                let marker_width = self.options.ordered_list_indent_width.get();
-                let trailing_count = marker_width.saturating_sub(current_num_width + 1).max(1);
-
-                self.output.push_str(&current_num);
-                self.output.push(marker);
-                self.output.push_str(&" ".repeat(trailing_count));
-            }
-            None => {}
-        }
+        let marker = self.list_item_marker();
+        self.output.push_str(&marker);
 
         // Add task list checkbox if this is a task item
         if let Some(checked) = task_marker {
@@ -218,44 +234,9 @@ impl<'a> Serializer<'a> {
 
         // Serialize children, handling nested lists and multiple paragraphs
         let children: Vec<_> = node.children().collect();
-        // Calculate base indentation for continuation lines (paragraphs, code blocks, etc.)
-        // This should match the marker width so content aligns properly
-        let marker_width = self.calculate_marker_width();
-        // Inside description details at top-level, the marker has no leading space,
-        // so we need to use marker_width without leading_spaces for base_indent calculation.
-        let marker_width_for_indent = if self.in_description_details && self.list_depth == 1 {
-            match self.list_type {
-                Some(ListType::Bullet) => {
-                    // "-  " = 1 (marker) + trailing_spaces (no leading space)
-                    1 + self.options.trailing_spaces.get()
-                }
-                Some(ListType::Ordered) => {
-                    // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
-                }
-                None => 0,
-            }
-        } else {
-            marker_width
-        };
-        let base_indent = if self.in_description_details {
-            // Inside description details, add extra 5-space indent
-            format!(
-                "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width_for_indent)
-            )
-        } else if self.list_depth > 1 {
-            // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
-        } else {
-            // Top-level list: just marker width
-            " ".repeat(marker_width)
-        };
+        // Base indentation for continuation lines (paragraphs, code blocks, etc.)
+        // This matches the marker width so content aligns properly
+        let base_indent = " ".repeat(self.list_indent + marker.len());
 
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index bad8e09..f89a6fa 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -258,6 +258,8 @@ pub struct Serializer<'a> {
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
     pub list_depth: usize,
+    /// Indentation of the items of the current list
+    pub list_indent: usize,
     /// Current formatting skip mode
     pub skip_mode: FormatSkipMode,
     /// Whether we're inside a description details block (for indentation)
@@ -278,9 +280,6 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
-    /// The list depth when entering the current blockquote.
-    /// Used to determine if a list exists inside vs outside the blockquote.
-    pub blockquote_entry_list_depth: usize,
     /// Proper nouns defined via directives for sentence case (merged with config)
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
@@ -310,6 +309,7 @@ impl<'a> Serializer<'a> {
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
+            list_indent: 0,
             skip_mode: FormatSkipMode::None,
             in_description_details: false,
             description_details_first_list: false,
@@ -319,7 +319,6 @@ impl<'a> Serializer<'a> {
             list_marker_alternate: false,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             #[cfg(feature = "wasm")]
@@ -349,6 +348,7 @@ impl<'a> Serializer<'a> {
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
+            list_indent: 0,
             skip_mode: FormatSkipMode::None,
             in_description_details: false,
             description_details_first_list: false,
@@ -358,7 +358,6 @@ impl<'a> Serializer<'a> {
             list_marker_alternate: false,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             code_formatter_callback: callback,
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 5a8b26c..d033f9d 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -193,15 +193,14 @@ pub fn wrap_text_first_line(
         if !is_first_segment {
             // Mark the hard line break, then newline
             result.push_str(hard_break(hard_break_segments[idx - 1]));
-            result.push_str(continuation_prefix);
         }
-        let (current_first, current_cont) = if is_first_segment {
-            (first_prefix, continuation_prefix)
+        let current_first = if is_first_segment {
+            first_prefix
         } else {
-            ("", continuation_prefix)
+            continuation_prefix
         };
         let wrapped =
-            wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
+            wrap_text_first_line_segment(segment, current_first, continuation_prefix, line_width);
         result.push_str(&wrapped);
     }
 
-- 
2.43.0


From 5f3ce12dbe7151a9c49644571aaaec414d46aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 17/54] fix: keep the titles of alerts

---
 src/serializer/block.rs | 14 ++++++++++----
 src/serializer/mod.rs   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 5259b86..e6e81e2 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,8 +1,9 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode};
+use comrak::nodes::{AlertType, AstNode, NodeAlert};
 
 use super::Serializer;
+use super::escape;
 
 /// Saved state for blockquote context, used for restoration after processing.
 struct BlockquoteState {
@@ -82,9 +83,9 @@ impl<'a> Serializer<'a> {
         self.exit_blockquote_context(state);
     }
 
-    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert_type: AlertType) {
+    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert: &NodeAlert) {
         // Output the alert header
-        let type_str = match alert_type {
+        let type_str = match alert.alert_type {
             AlertType::Note => "NOTE",
             AlertType::Tip => "TIP",
             AlertType::Important => "IMPORTANT",
@@ -95,7 +96,12 @@ impl<'a> Serializer<'a> {
         self.output.push_str(&self.list_item_indent);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        self.output.push(']');
+        if let Some(title) = &alert.title {
+            self.output.push(' ');
+            escape::push_escaped(&mut self.output, title.trim(), "");
+        }
+        self.output.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 9e78bd3..f8f05d4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -515,7 +515,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_description_details(node);
             }
             NodeValue::Alert(alert) => {
-                self.serialize_alert(node, alert.alert_type);
+                self.serialize_alert(node, alert);
             }
             NodeValue::Item(_) => {
                 self.serialize_list_item(node, None);
-- 
2.43.0


From bcca6b29fbc92023693a83be8fea9572e97db383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 18/54] fix: transform every ellipsis of a long run of dots in
 one pass

---
 src/serializer/punctuation.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 685aa91..d6249c9 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -123,17 +123,9 @@ fn transform_ellipsis(text: &str) -> String {
 
     while i < chars.len() {
         if i + 2 < chars.len() && chars[i] == '.' && chars[i + 1] == '.' && chars[i + 2] == '.' {
-            // Check if there's a 4th dot
-            if i + 3 < chars.len() && chars[i + 3] == '.' {
-                // Four dots: ellipsis + period
-                result.push(ELLIPSIS);
-                result.push('.');
-                i += 4;
-            } else {
-                // Three dots: just ellipsis
-                result.push(ELLIPSIS);
-                i += 3;
-            }
+            // A 4th dot stays as it is
+            result.push(ELLIPSIS);
+            i += 3;
         } else {
             result.push(chars[i]);
             i += 1;
-- 
2.43.0


From ace6781f66e8678e387d4d34b92db9bb1a01ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 19/54] fix: keep hard breaks that begin a paragraph or follow
 a joined marker

---
 src/serializer/document.rs |  6 +++---
 src/serializer/mod.rs      |  2 +-
 src/serializer/wrap.rs     | 17 ++++++++++++++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 785abde..41faa66 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -324,7 +324,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(' '),
                             &first_prefix,
                             &continuation,
                             self.options.line_width.get(),
@@ -376,7 +376,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(' '),
                             &first_prefix,
                             &continuation,
                             self.options.line_width.get(),
@@ -517,7 +517,7 @@ impl<'a> Serializer<'a> {
                 String::new()
             };
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim(),
+                inline_content.trim_matches(' '),
                 &first_prefix,
                 &continuation,
                 self.options.line_width.get(),
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index f8f05d4..52d119f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -414,7 +414,7 @@ impl<'a> Serializer<'a> {
                 let mut content = String::new();
                 self.collect_inline_content(child, &mut content);
                 let wrapped = wrap::wrap_text_first_line(
-                    content.trim(),
+                    content.trim_matches(' '),
                     &format!("[^{name}]: "),
                     INDENT,
                     self.options.line_width.get(),
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index d033f9d..08b769a 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -70,7 +70,8 @@ pub fn starts_other_block(text: &str) -> bool {
 /// The end of a hard-broken segment: two trailing spaces, or a backslash where the spaces
 /// would be alone on their line or follow what would then be a block marker.
 fn hard_break(segment: &str) -> &'static str {
-    let last_line = segment.rsplit('\x00').next().unwrap_or_default().trim();
+    let lines = split_soft_breaks(segment);
+    let last_line = lines.last().map_or("", |line| line.trim());
     if last_line.is_empty() || starts_other_block(last_line) {
         "\\\n"
     } else {
@@ -78,6 +79,16 @@ fn hard_break(segment: &str) -> &'static str {
     }
 }
 
+/// Add a wrapped segment that ends with a hard break, or the whole prefix where the segment is
+/// empty: the mark of the break follows it on the same line.
+fn push_segment(result: &mut String, wrapped: &str, segment: &str, prefix: &str) {
+    if segment.trim().is_empty() {
+        result.push_str(prefix);
+    } else {
+        result.push_str(wrapped);
+    }
+}
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -106,7 +117,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
         let wrapped = wrap_text_segment(segment, prefix, line_width);
-        result.push_str(&wrapped);
+        push_segment(&mut result, &wrapped, segment, prefix);
     }
 
     result
@@ -201,7 +212,7 @@ pub fn wrap_text_first_line(
         };
         let wrapped =
             wrap_text_first_line_segment(segment, current_first, continuation_prefix, line_width);
-        result.push_str(&wrapped);
+        push_segment(&mut result, &wrapped, segment, current_first);
     }
 
     result
-- 
2.43.0


From c509e3beb27b243105d9aece777fc40c96c852ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 20/54] fix: sentence case leaves inline HTML, links and
 escaped quotes alone

---
 src/serializer/heading.rs | 174 ++++++++++++++++++++++++++++++++------
 1 file changed, 148 insertions(+), 26 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..008d0d2 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -38,6 +38,7 @@ pub fn to_sentence_case(
                 result.push_str(&content);
                 is_first_word = false;
             }
+            Token::Raw(content) => result.push_str(&content),
             Token::Quote(content, is_double) => {
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
@@ -63,6 +64,8 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
+    /// Other markup that is not prose, such as inline HTML (preserved as-is)
+    Raw(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
     /// Regular text
@@ -88,6 +91,14 @@ fn normalize_quotes(text: &str) -> String {
     while i < len {
         let ch = chars[i];
 
+        if ch == '\\' && i + 1 < len && chars[i + 1].is_ascii_punctuation() {
+            // An escaped quote stays what it is
+            result.push(ch);
+            result.push(chars[i + 1]);
+            i += 2;
+            continue;
+        }
+
         if ch == '\'' {
             // Check for decade abbreviations: '80s, '90s
             if i + 3 < len
@@ -186,44 +197,155 @@ fn normalize_quotes(text: &str) -> String {
     result
 }
 
-/// Tokenize text: first extract code spans, then normalize quotes and parse quotes in remaining text.
+/// Tokenize text: first extract code spans and other raw markup, then normalize quotes and
+/// parse quotes in remaining text.
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
-    let mut current = String::new();
-    let mut chars = text.chars().peekable();
-
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
-            // Save any accumulated text (normalize quotes in it)
-            if !current.is_empty() {
-                let normalized = normalize_quotes(&current);
-                tokens.extend(tokenize_quotes(&normalized));
-                current.clear();
-            }
+    let mut current_start = 0;
+    let mut pos = 0;
+
+    while pos < text.len() {
+        let rest = &text[pos..];
+        if rest.starts_with('\\') && rest[1..].starts_with(|c: char| c.is_ascii_punctuation()) {
+            pos += 2;
+            continue;
+        }
+        let code_span_len = code_span_len(rest);
+        let raw_len = code_span_len.or_else(|| raw_markup_len(&text[..pos], rest));
+        let Some(len) = raw_len else {
+            pos += rest.chars().next().map_or(1, char::len_utf8);
+            continue;
+        };
 
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
-            }
-            tokens.push(Token::CodeSpan(code_span));
-        } else {
-            current.push(ch);
+        // Save any accumulated text (normalize quotes in it)
+        if current_start < pos {
+            let normalized = normalize_quotes(&text[current_start..pos]);
+            tokens.extend(tokenize_quotes(&normalized));
         }
+        let raw = rest[..len].to_string();
+        tokens.push(if code_span_len.is_some() {
+            Token::CodeSpan(raw)
+        } else {
+            Token::Raw(raw)
+        });
+        pos += len;
+        current_start = pos;
     }
 
     // Save remaining text (normalize quotes in it)
-    if !current.is_empty() {
-        let normalized = normalize_quotes(&current);
+    if current_start < text.len() {
+        let normalized = normalize_quotes(&text[current_start..]);
         tokens.extend(tokenize_quotes(&normalized));
     }
 
     tokens
 }
 
+/// The length of the code span `text` starts with, if any.
+fn code_span_len(text: &str) -> Option<usize> {
+    let opening = text.bytes().take_while(|&b| b == b'`').count();
+    if opening == 0 {
+        return None;
+    }
+    let mut pos = opening;
+    while let Some(offset) = text[pos..].find('`') {
+        pos += offset;
+        let closing = text[pos..].bytes().take_while(|&b| b == b'`').count();
+        pos += closing;
+        if closing == opening {
+            return Some(pos);
+        }
+    }
+    // Unclosed: the backticks themselves are literal, but so is what follows them
+    Some(text.len())
+}
+
+/// The length of the markup other than code spans that `rest` starts with and whose letters and
+/// quotes are not prose: inline HTML and autolinks, link destinations and labels, entities, and
+/// footnote references.
+fn raw_markup_len(before: &str, rest: &str) -> Option<usize> {
+    let bytes = rest.as_bytes();
+    match bytes.first()? {
+        b'<' => {
+            let next = *bytes.get(1)?;
+            if let Some(comment) = rest.strip_prefix("<!--") {
+                return comment.find("-->").map(|end| end + 7);
+            }
+            if !next.is_ascii_alphabetic() && !matches!(next, b'/' | b'!' | b'?') {
+                return None;
+            }
+            let mut quote = None;
+            for (i, &b) in bytes.iter().enumerate().skip(1) {
+                match quote {
+                    Some(q) if b == q => quote = None,
+                    Some(_) => {}
+                    None if b == b'"' || b == b'\'' => {
+                        // Only an attribute value is quoted
+                        if bytes[..i].trim_ascii_end().ends_with(b"=") {
+                            quote = Some(b);
+                        }
+                    }
+                    None if b == b'>' => return Some(i + 1),
+                    None if b == b'<' => return None,
+                    None => {}
+                }
+            }
+            None
+        }
+        b'(' if before.ends_with(']') && !before.ends_with("\\]") => {
+            let mut depth = 0;
+            let mut pos = 0;
+            while pos < bytes.len() {
+                match bytes[pos] {
+                    b'\\' => pos += 1,
+                    b'(' => depth += 1,
+                    b')' => {
+                        depth -= 1;
+                        if depth == 0 {
+                            return Some(pos + 1);
+                        }
+                    }
+                    quote @ (b'"' | b'\'') if bytes[pos - 1] == b' ' => {
+                        // A title
+                        pos += 1;
+                        while pos < bytes.len() && bytes[pos] != quote {
+                            pos += if bytes[pos] == b'\\' { 2 } else { 1 };
+                        }
+                    }
+                    b'<' if pos == 1 => {
+                        pos += 1;
+                        while pos < bytes.len() && bytes[pos] != b'>' {
+                            pos += if bytes[pos] == b'\\' { 2 } else { 1 };
+                        }
+                    }
+                    _ => {}
+                }
+                pos += 1;
+            }
+            None
+        }
+        b'[' if rest.starts_with("[^") || (before.ends_with(']') && !before.ends_with("\\]")) => {
+            let mut pos = 1;
+            while pos < bytes.len() {
+                match bytes[pos] {
+                    b'\\' => pos += 1,
+                    b']' => return Some(pos + 1),
+                    b'[' => return None,
+                    _ => {}
+                }
+                pos += 1;
+            }
+            None
+        }
+        b'&' => {
+            let end = rest.find(';')?;
+            let name = rest[1..end].strip_prefix('#').unwrap_or(&rest[1..end]);
+            (!name.is_empty() && name.bytes().all(|b| b.is_ascii_alphanumeric())).then_some(end + 1)
+        }
+        _ => None,
+    }
+}
+
 /// Tokenize text that has already been quote-normalized, extracting quoted parts.
 fn tokenize_quotes(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
@@ -325,7 +447,7 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
+                    Token::CodeSpan(c) | Token::Raw(c) => result.push_str(&c),
                     Token::Quote(c, is_dbl) => {
                         let processed =
                             process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
-- 
2.43.0


From a9a6edc7a2ab02d9992346ad90abdc4cf6136ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 21/54] fix: reproduce disabled regions as they are, with their
 definitions

---
 src/serializer/document.rs | 406 +++++++++++++++++++------------------
 src/serializer/state.rs    |  73 ++++---
 2 files changed, 253 insertions(+), 226 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 41faa66..3978670 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -5,7 +5,7 @@ use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
-use super::state::{Directive, FormatSkipMode};
+use super::state::{Directive, DisabledRegion};
 use super::wrap;
 
 impl<'a> Serializer<'a> {
@@ -15,6 +15,13 @@ impl<'a> Serializer<'a> {
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
+        // Find what formatting directives exempt from formatting
+        let regions = self.find_disabled_regions(&children);
+        self.disabled_source = regions
+            .iter()
+            .filter_map(|region| self.source_of_lines(region.start_line, region.end_line))
+            .collect();
+
         // First pass: collect all footnote reference lines
         // This is needed because FootnoteDefinition nodes come at the end of the AST,
         // but we need to know reference lines before flushing at section boundaries
@@ -23,16 +30,42 @@ impl<'a> Serializer<'a> {
         // Second pass: process all FootnoteDefinition nodes first
         // This ensures pending_footnotes is populated before we flush at section boundaries
         for child in &children {
-            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
+            let data = child.data.borrow();
+            // Those in disabled regions stay where they are
+            let line = data.sourcepos.start.line;
+            if let NodeValue::FootnoteDefinition(_) = &data.value
+                && !regions.iter().any(|region| region.contains_line(line))
+            {
                 self.serialize_node(child);
             }
         }
 
         // Identify trailing HTML blocks (non-directive comments at the end of document)
         // These should be output after reference definitions to maintain their position
-        let trailing_html_start = self.find_trailing_html_blocks(&children);
+        let trailing_html_start = regions
+            .iter()
+            .map(|region| region.next_child)
+            .fold(self.find_trailing_html_blocks(&children), usize::max);
+        let mut regions = regions.into_iter().peekable();
+        let mut resume_at = 0;
+        let mut after_region = false;
 
         for (i, child) in children.iter().enumerate() {
+            if i < resume_at {
+                // Part of a disabled region, which was reproduced as it is
+                if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
+                    match Directive::parse(&html_block.literal) {
+                        Some(Directive::ProperNouns(nouns)) => {
+                            self.directive_proper_nouns.extend(nouns);
+                        }
+                        Some(Directive::CommonNouns(nouns)) => {
+                            self.directive_common_nouns.extend(nouns);
+                        }
+                        _ => {}
+                    }
+                }
+                continue;
+            }
             // Skip trailing HTML blocks for now - they'll be output after references
             if i >= trailing_html_start
                 && let NodeValue::HtmlBlock(_) = &child.data.borrow().value
@@ -43,19 +76,35 @@ impl<'a> Serializer<'a> {
             if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
                 continue;
             }
+            // The block after a `hongdown-disable-next-line` directive is output as-is
+            if let Some(region) = regions.next_if(|region| region.first_child == i) {
+                if i > 0 {
+                    self.output.push('\n');
+                }
+                self.output_disabled_region(&region, &children);
+                resume_at = region.next_child;
+                continue;
+            }
             // Check for directives in HTML blocks
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
                 && let Some(directive) = Directive::parse(&html_block.literal)
             {
+                if matches!(
+                    directive,
+                    Directive::DisableFile
+                        | Directive::DisableNextLine
+                        | Directive::DisableNextSection
+                        | Directive::Disable
+                ) {
+                    // Flush pending footnotes and references BEFORE the directive.
+                    // Definitions that appear before the directive should stay before it.
+                    let directive_line = child.data.borrow().sourcepos.start.line;
+                    self.flush_footnotes_before(Some(directive_line));
+                    self.flush_references();
+                    self.flush_footnote_references_before(Some(directive_line));
+                }
                 match directive {
                     Directive::DisableFile => {
-                        // Flush pending footnotes and references BEFORE the disable-file directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
                         // Output the directive comment, then output remaining content as-is
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
@@ -69,84 +118,36 @@ impl<'a> Serializer<'a> {
                         }
                         return;
                     }
-                    Directive::DisableNextLine => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::NextBlock;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::DisableNextSection => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::UntilSection;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::Disable => {
-                        // Flush pending footnotes and references BEFORE the disable directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::Disabled;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::Enable => {
-                        self.skip_mode = FormatSkipMode::None;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::ProperNouns(nouns) => {
+                    Directive::ProperNouns(ref nouns) => {
                         // Add to directive proper nouns list
-                        self.directive_proper_nouns.extend(nouns);
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
+                        self.directive_proper_nouns.extend(nouns.iter().cloned());
                     }
-                    Directive::CommonNouns(nouns) => {
+                    Directive::CommonNouns(ref nouns) => {
                         // Add to directive common nouns list
-                        self.directive_common_nouns.extend(nouns);
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
+                        self.directive_common_nouns.extend(nouns.iter().cloned());
                     }
+                    _ => {}
+                }
+                // Output the directive comment
+                if i > 0 && !after_region {
+                    self.output.push('\n');
                 }
+                after_region = false;
+                self.output.push_str(&html_block.literal);
+                // Output the lines it disables as they are
+                if matches!(
+                    directive,
+                    Directive::DisableNextSection | Directive::Disable
+                ) && let Some(region) = regions.next_if(|region| region.first_child == i + 1)
+                {
+                    self.output_disabled_region(&region, &children);
+                    resume_at = region.next_child;
+                    // An enabling directive follows the region without another blank line
+                    after_region = children.get(resume_at).is_some_and(|next| {
+                        !matches!(next.data.borrow().value, NodeValue::Heading(_))
+                    });
+                }
+                continue;
             }
 
             // Check if we're about to start a new section (h2 or h3 heading)
@@ -191,35 +192,6 @@ impl<'a> Serializer<'a> {
                 }
             }
 
-            // Check if this block should be output as-is (skip formatting)
-            if self.should_skip_formatting() {
-                // For NextBlock mode, reset after this block
-                let was_next_block = self.skip_mode == FormatSkipMode::NextBlock;
-                if was_next_block {
-                    self.skip_mode = FormatSkipMode::None;
-                }
-
-                // For UntilSection mode, check if this is a heading to reset
-                if self.skip_mode == FormatSkipMode::UntilSection
-                    && let NodeValue::Heading(h) = &child.data.borrow().value
-                    && h.level <= 2
-                {
-                    self.skip_mode = FormatSkipMode::None;
-                    // Continue with normal formatting for this heading
-                    self.serialize_node(child);
-                    continue;
-                }
-
-                // Output the original source
-                if let Some(source) = self.extract_source(child) {
-                    self.output.push_str(&source);
-                    self.output.push('\n');
-                } else {
-                    self.serialize_node(child);
-                }
-                continue;
-            }
-
             self.serialize_node(child);
         }
 
@@ -232,6 +204,121 @@ impl<'a> Serializer<'a> {
         self.output_trailing_html_blocks(&children, trailing_html_start);
     }
 
+    /// Find the parts of the document that formatting directives exempt from formatting.
+    fn find_disabled_regions<'b>(&self, children: &[&'b AstNode<'b>]) -> Vec<DisabledRegion> {
+        let directive_of = |child: &AstNode<'b>| match &child.data.borrow().value {
+            NodeValue::HtmlBlock(html_block) => Directive::parse(&html_block.literal),
+            _ => None,
+        };
+        let lines_of = |child: &AstNode<'b>| {
+            let sourcepos = child.data.borrow().sourcepos;
+            (sourcepos.start.line, sourcepos.end.line)
+        };
+        // Footnote definitions come last, wherever they are in the source
+        let len = children
+            .iter()
+            .rposition(|child| {
+                !matches!(child.data.borrow().value, NodeValue::FootnoteDefinition(_))
+            })
+            .map_or(0, |last| last + 1);
+
+        let mut regions = Vec::new();
+        let mut i = 0;
+        while i < len {
+            let directive = directive_of(children[i]);
+            let directive_end_line = lines_of(children[i]).1;
+            i += 1;
+            match directive {
+                Some(Directive::DisableFile) => {
+                    regions.push(DisabledRegion {
+                        first_child: i,
+                        next_child: len,
+                        start_line: directive_end_line + 1,
+                        end_line: usize::MAX,
+                    });
+                    break;
+                }
+                Some(Directive::DisableNextLine) => {
+                    // Only the next block is disabled
+                    if i < len && directive_of(children[i]).is_none() {
+                        let (start_line, end_line) = lines_of(children[i]);
+                        regions.push(DisabledRegion {
+                            first_child: i,
+                            next_child: i + 1,
+                            start_line,
+                            end_line,
+                        });
+                        i += 1;
+                    }
+                }
+                Some(directive @ (Directive::DisableNextSection | Directive::Disable)) => {
+                    // Disabled until next h2 or lower heading, or until enabled again
+                    let next_child = (i..len)
+                        .find(|&j| match &children[j].data.borrow().value {
+                            NodeValue::Heading(h) => {
+                                directive == Directive::DisableNextSection && h.level <= 2
+                            }
+                            _ => directive_of(children[j]) == Some(Directive::Enable),
+                        })
+                        .unwrap_or(len);
+                    let end_line = match children[..len].get(next_child) {
+                        Some(next) => lines_of(next).0 - 1,
+                        None => usize::MAX,
+                    };
+                    regions.push(DisabledRegion {
+                        first_child: i,
+                        next_child,
+                        start_line: directive_end_line + 1,
+                        end_line,
+                    });
+                    i = next_child;
+                }
+                _ => {}
+            }
+        }
+        regions
+    }
+
+    /// Output a disabled region as it is in the source.
+    fn output_disabled_region<'b>(
+        &mut self,
+        region: &DisabledRegion,
+        children: &[&'b AstNode<'b>],
+    ) {
+        // Definitions elsewhere that the region uses are still needed
+        for child in &children[region.first_child..region.next_child] {
+            for node in child.descendants() {
+                let (url, title) = match &node.data.borrow().value {
+                    NodeValue::Link(link) | NodeValue::Image(link) => {
+                        (link.url.clone(), link.title.clone())
+                    }
+                    _ => continue,
+                };
+                if let Some((_, label)) = self.get_reference_style_info(node) {
+                    let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                    self.add_reference(label, url, title);
+                }
+            }
+        }
+
+        let Some(source) = self.source_of_lines(region.start_line, region.end_line) else {
+            return;
+        };
+        let until_enabled = children.get(region.next_child).is_some_and(|next| {
+            matches!(&next.data.borrow().value, NodeValue::HtmlBlock(html_block)
+                if Directive::parse(&html_block.literal) == Some(Directive::Enable))
+        });
+        if until_enabled {
+            self.output.push_str(&source);
+        } else {
+            // What follows is set off in its own way
+            self.output.push_str(source.trim_end_matches('\n'));
+        }
+        if !self.output.ends_with('\n') {
+            self.output.push('\n');
+        }
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
@@ -577,8 +664,8 @@ impl<'a> Serializer<'a> {
         // (e.g., when they follow abbreviation definitions without a blank line)
         let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
 
-        // Collect disabled line ranges based on formatting directives
-        let disabled_ranges = Self::collect_disabled_line_ranges(node);
+        // Find what formatting directives exempt from formatting
+        let disabled_regions = self.find_disabled_regions(&node.children().collect::<Vec<_>>());
 
         // Collect warnings first to avoid borrow issues
         let warnings = Self::find_undefined_references_in_ast(
@@ -590,96 +677,13 @@ impl<'a> Serializer<'a> {
 
         // Filter out warnings that fall within disabled regions
         for (line, msg) in warnings {
-            if !Self::is_line_in_disabled_ranges(line, &disabled_ranges) {
-                self.add_warning(line, msg);
-            }
-        }
-    }
-
-    /// Collect line ranges that should be excluded from warnings due to
-    /// formatting directives (hongdown-disable, hongdown-disable-next-line, etc.).
-    ///
-    /// Returns a vector of (start_line, end_line) tuples representing disabled ranges.
-    fn collect_disabled_line_ranges<'b>(node: &'b AstNode<'b>) -> Vec<(usize, usize)> {
-        let mut ranges = Vec::new();
-        let children: Vec<_> = node.children().collect();
-
-        for (i, child) in children.iter().enumerate() {
-            if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
-                && let Some(directive) = Directive::parse(&html_block.literal)
+            if !disabled_regions
+                .iter()
+                .any(|region| region.contains_line(line))
             {
-                match directive {
-                    Directive::DisableFile => {
-                        // Everything after this directive is disabled
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        ranges.push((start_line, usize::MAX));
-                    }
-                    Directive::DisableNextLine => {
-                        // Only the next block is disabled
-                        if let Some(next_child) = children.get(i + 1) {
-                            // Skip if next child is also a directive
-                            if !matches!(
-                                &next_child.data.borrow().value,
-                                NodeValue::HtmlBlock(hb) if Directive::parse(&hb.literal).is_some()
-                            ) {
-                                let start_line = next_child.data.borrow().sourcepos.start.line;
-                                let end_line = next_child.data.borrow().sourcepos.end.line;
-                                ranges.push((start_line, end_line));
-                            }
-                        }
-                    }
-                    Directive::DisableNextSection => {
-                        // Disabled until next h2 or lower heading
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the next section (h2 or lower)
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::Heading(h) = &future_child.data.borrow().value
-                                && h.level <= 2
-                            {
-                                // End just before this heading
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Disable => {
-                        // Disabled until corresponding Enable directive
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the corresponding Enable directive
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::HtmlBlock(hb) = &future_child.data.borrow().value
-                                && let Some(Directive::Enable) = Directive::parse(&hb.literal)
-                            {
-                                // End just before the Enable directive
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Enable => {
-                        // Enable doesn't start a new range, it ends one
-                    }
-                    Directive::ProperNouns(_) | Directive::CommonNouns(_) => {
-                        // These directives don't affect warning ranges
-                    }
-                }
+                self.add_warning(line, msg);
             }
         }
-
-        ranges
-    }
-
-    /// Check if a line number falls within any of the disabled ranges.
-    fn is_line_in_disabled_ranges(line: usize, ranges: &[(usize, usize)]) -> bool {
-        ranges
-            .iter()
-            .any(|(start, end)| line >= *start && line <= *end)
     }
 
     /// Collect PHP Markdown Extra abbreviation definitions from source.
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index f89a6fa..aa4f6ec 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -3,27 +3,28 @@
 use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
+use comrak::{Arena, Options as ComrakOptions, parse_document};
 
 use crate::Options;
 
-/// The current formatting skip mode.
-///
-/// Controls whether and how formatting should be skipped for content.
-/// Only one mode can be active at a time.
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
-pub enum FormatSkipMode {
-    /// Normal formatting is active.
-    #[default]
-    None,
-    /// Skip formatting for the next block element only.
-    /// Automatically resets to `None` after the block is processed.
-    NextBlock,
-    /// Skip formatting until the next section heading (h2 or lower).
-    /// Automatically resets to `None` when a heading is encountered.
-    UntilSection,
-    /// Formatting is disabled (by `hongdown-disable` directive).
-    /// Remains active until `hongdown-enable` directive is encountered.
-    Disabled,
+/// A part of the document that a formatting directive exempts from formatting.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub struct DisabledRegion {
+    /// Index of its first block among the blocks of the document.
+    pub first_child: usize,
+    /// Index of the first block after it.
+    pub next_child: usize,
+    /// Its first line (1-indexed).
+    pub start_line: usize,
+    /// Its last line (1-indexed), or `usize::MAX` if it extends to the end of the document.
+    pub end_line: usize,
+}
+
+impl DisabledRegion {
+    /// Whether a line (1-indexed) belongs to the region.
+    pub fn contains_line(&self, line: usize) -> bool {
+        (self.start_line..=self.end_line).contains(&line)
+    }
 }
 
 /// Formatting directives that can be embedded in HTML comments.
@@ -260,8 +261,8 @@ pub struct Serializer<'a> {
     pub list_depth: usize,
     /// Indentation of the items of the current list
     pub list_indent: usize,
-    /// Current formatting skip mode
-    pub skip_mode: FormatSkipMode,
+    /// Source of the parts of the document that are not formatted
+    pub disabled_source: Vec<String>,
     /// Whether we're inside a description details block (for indentation)
     pub in_description_details: bool,
     /// Whether we're serializing the first list inside description details on the same line as `:`.
@@ -310,7 +311,7 @@ impl<'a> Serializer<'a> {
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             list_indent: 0,
-            skip_mode: FormatSkipMode::None,
+            disabled_source: Vec::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -349,7 +350,7 @@ impl<'a> Serializer<'a> {
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             list_indent: 0,
-            skip_mode: FormatSkipMode::None,
+            disabled_source: Vec::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -463,9 +464,28 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
-    /// Check if formatting should be skipped for this node.
-    pub fn should_skip_formatting(&self) -> bool {
-        self.skip_mode != FormatSkipMode::None
+    /// The source lines from `start_line` through `end_line` (1-indexed), each with its newline.
+    pub fn source_of_lines(&self, start_line: usize, end_line: usize) -> Option<String> {
+        let end = end_line.min(self.source_lines.len());
+        let lines = self.source_lines.get(start_line.checked_sub(1)?..end)?;
+        Some(lines.iter().flat_map(|line| [*line, "\n"]).collect())
+    }
+
+    /// The target and title a label has by a definition in a part that is not formatted.
+    fn disabled_definition(&self, label: &str) -> Option<(String, String)> {
+        self.disabled_source.iter().find_map(|source| {
+            if !source.contains("]:") {
+                return None;
+            }
+            let arena = Arena::new();
+            let text = format!("{source}\n\n[{label}]\n");
+            let root = parse_document(&arena, &text, &ComrakOptions::default());
+            let link = root.last_child()?.first_child()?;
+            match &link.data.borrow().value {
+                NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
+                _ => None,
+            }
+        })
     }
 
     /// Add a reference link to the pending references.
@@ -485,6 +505,9 @@ impl<'a> Serializer<'a> {
         if let Some((known_url, known_title)) = self.reference_targets.get(&normalized) {
             return *known_url == url && *known_title == title;
         }
+        if let Some(defined) = self.disabled_definition(&normalized) {
+            return defined == (url, title);
+        }
         self.reference_targets
             .insert(normalized, (url.clone(), title.clone()));
         let reference = ReferenceLink {
-- 
2.43.0


From 1e9ffe3865eaefec9549ede2a340e771944ef921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 22/54] fix: start the first block of a list item next to its
 marker; wrap around literal backticks and brackets

---
 src/serializer/escape.rs |   2 +-
 src/serializer/list.rs   |  52 ++++++++++++++++--
 src/serializer/state.rs  |   4 ++
 src/serializer/wrap.rs   | 111 +++++++++++++--------------------------
 4 files changed, 90 insertions(+), 79 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index ba05e53..f5ea921 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -93,7 +93,7 @@ pub fn find_closing_bracket(text: &str) -> Option<usize> {
 }
 
 /// Length of the rest of a code span opened by a run of backticks, or 0 if nothing closes it.
-fn code_span_len(rest: &str, run: usize) -> usize {
+pub fn code_span_len(rest: &str, run: usize) -> usize {
     let mut pos = 0;
     while let Some(start) = rest[pos..].find('`') {
         pos += start;
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 03122e8..6aa56af 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -100,6 +100,14 @@ impl<'a> Serializer<'a> {
             // Lists inside definition list details need a 5-space base indent
             return if self.in_description_details { 5 } else { 0 };
         }
+        if self.list_on_marker_line {
+            // The first item starts where the contents of the parent item do
+            let leading = match list_type {
+                ListType::Ordered => 0,
+                ListType::Bullet => self.options.leading_spaces.get(),
+            };
+            return self.list_item_indent.len().saturating_sub(leading);
+        }
         // Use different indent_width for ordered vs unordered lists
         let (indent_width, leading) = match list_type {
             ListType::Ordered => (self.options.ordered_list_indent_width.get(), 0),
@@ -160,6 +168,7 @@ impl<'a> Serializer<'a> {
 
         let indent = self.list_indent_for(list_type);
         let old_list_indent = std::mem::replace(&mut self.list_indent, indent);
+        self.list_on_marker_line = false;
 
         self.list_type = Some(list_type);
         // Some blocks are always set off by a blank line, which makes the list loose
@@ -258,6 +267,7 @@ impl<'a> Serializer<'a> {
                     };
 
                     let follows_block = i > 0 && ends_with_newline(children[i - 1]);
+                    let marker_end = self.output.len();
                     if !follows_block {
                         self.output.push('\n');
                     }
@@ -265,7 +275,11 @@ impl<'a> Serializer<'a> {
                         // Blank line to separate from preceding paragraph
                         self.push_blank_line();
                     }
+                    self.list_on_marker_line = is_first;
                     self.serialize_node(child);
+                    if is_first {
+                        self.join_marker_line(marker_end);
+                    }
                 }
                 NodeValue::Paragraph => {
                     // For paragraphs after the first, add blank line with proper indentation
@@ -301,6 +315,7 @@ impl<'a> Serializer<'a> {
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
+                    let marker_end = self.output.len();
                     if is_first {
                         self.output.push('\n');
                     } else {
@@ -310,6 +325,9 @@ impl<'a> Serializer<'a> {
                         self.push_blank_line();
                     }
                     self.serialize_node(child);
+                    if is_first {
+                        self.join_marker_line(marker_end);
+                    }
                 }
                 NodeValue::Heading(_)
                 | NodeValue::Table(_)
@@ -326,10 +344,9 @@ impl<'a> Serializer<'a> {
                     }
                     let block = self.serialize_apart(child);
                     let mut block = block.trim_end();
-                    // Next to a list marker a thematic break may read as one long thematic
-                    // break, so it starts on its own line
-                    let on_own_line =
-                        is_first && matches!(&child.data.borrow().value, NodeValue::ThematicBreak);
+                    let marker_end = self.output.len();
+                    let is_break = matches!(&child.data.borrow().value, NodeValue::ThematicBreak);
+                    let on_own_line = is_first && is_break;
                     if on_own_line {
                         block = block.trim_start();
                         self.output.push('\n');
@@ -348,6 +365,9 @@ impl<'a> Serializer<'a> {
                         }
                         self.output.push_str(line);
                     }
+                    if on_own_line {
+                        self.join_marker_line(marker_end);
+                    }
                 }
                 _ => {
                     self.serialize_node(child);
@@ -365,6 +385,30 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Move the first block of a list item, which was written below the marker, next to it: an
+    /// item without contents on its first line cannot follow a paragraph.
+    fn join_marker_line(&mut self, marker_end: usize) {
+        let indent = format!("\n{}{}", self.quote_line_prefix(), self.list_item_indent);
+        let Some(block) = self.output[marker_end..].strip_prefix(&indent) else {
+            return;
+        };
+        // The line may read as one long thematic break though
+        let line_start = self.output[..marker_end]
+            .rfind('\n')
+            .map_or(0, |pos| pos + 1);
+        let line: String = self.output[line_start..marker_end]
+            .chars()
+            .chain(block.lines().next().unwrap_or_default().chars())
+            .filter(|ch| !matches!(ch, ' ' | '>'))
+            .collect();
+        let first = line.chars().next().unwrap_or_default();
+        if line.len() >= 3 && matches!(first, '-' | '*') && line.chars().all(|ch| ch == first) {
+            return;
+        }
+        self.output
+            .replace_range(marker_end..marker_end + indent.len(), "");
+    }
+
     /// Serialize a block as if it stood at the top level, for the caller to indent.
     pub(super) fn serialize_apart<'b>(&mut self, node: &'b AstNode<'b>) -> String {
         let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, false);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index aa4f6ec..64e6911 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -257,6 +257,8 @@ pub struct Serializer<'a> {
     pub reference_targets: std::collections::HashMap<String, (String, String)>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
+    /// Whether the list about to be serialized starts on the line of its parent item's marker
+    pub list_on_marker_line: bool,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
     pub list_depth: usize,
     /// Indentation of the items of the current list
@@ -309,6 +311,7 @@ impl<'a> Serializer<'a> {
             emitted_references: std::collections::HashSet::new(),
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
+            list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
             disabled_source: Vec::new(),
@@ -348,6 +351,7 @@ impl<'a> Serializer<'a> {
             emitted_references: std::collections::HashSet::new(),
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
+            list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
             disabled_source: Vec::new(),
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 08b769a..01be60c 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,8 @@
 
 use unicode_width::UnicodeWidthStr;
 
+use super::escape;
+
 /// Whether a line starting with this text, coming after another line of a paragraph,
 /// would not be read as a continuation of that paragraph: it would start a block of its
 /// own or turn the preceding lines into a heading, a table or a description list.
@@ -313,80 +315,20 @@ pub fn wrap_single_segment(
     // We preserve double spaces after periods.
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut in_backticks = false;
-    let mut bracket_depth = 0;
-
-    for (pos, ch) in text.char_indices() {
-        if ch != ' '
-            && !in_backticks
-            && bracket_depth == 0
-            && !current_token.is_empty()
-            && !trailing_spaces.is_empty()
-            && starts_block(&text[pos..])
-        {
-            // This word must not start a line, so it stays with the word before
-            current_token.push_str(&trailing_spaces);
-            trailing_spaces.clear();
+    let mut pos = 0;
+
+    while let Some(ch) = text[pos..].chars().next() {
+        if ch == ' ' {
+            trailing_spaces.push(ch);
+            pos += 1;
+            continue;
         }
-        if ch == '`' && bracket_depth == 0 {
-            if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
+        let rest = &text[pos..];
+        if !trailing_spaces.is_empty() && !current_token.is_empty() {
+            if starts_block(rest) {
+                // This word must not start a line, so it stays with the word before
+                current_token.push_str(&trailing_spaces);
             } else {
-                // Start of backtick region - include any accumulated content first
-                if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                    // We have a previous word, output it
-                    add_token_to_line_with_prefix(
-                        &mut result,
-                        &mut current_line,
-                        &current_token,
-                        &trailing_spaces,
-                        first_prefix_width,
-                        prefix,
-                        line_width,
-                        &mut is_first_line,
-                    );
-                    current_token.clear();
-                    trailing_spaces.clear();
-                }
-                current_token.push(ch);
-                in_backticks = true;
-            }
-        } else if in_backticks {
-            // Inside backticks, everything is part of the token
-            current_token.push(ch);
-        } else if ch == '[' {
-            // Start of bracket region
-            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // Output previous token before starting bracket
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
-            }
-            current_token.push(ch);
-            bracket_depth += 1;
-        } else if ch == ']' && bracket_depth > 0 {
-            // End of bracket region (or nested bracket)
-            current_token.push(ch);
-            bracket_depth -= 1;
-        } else if bracket_depth > 0 {
-            // Inside brackets, everything is part of the token
-            current_token.push(ch);
-        } else if ch == ' ' {
-            trailing_spaces.push(ch);
-        } else {
-            // Regular character outside backticks and brackets
-            if !current_token.is_empty() && !trailing_spaces.is_empty() {
                 // We have a previous word with trailing spaces, output it
                 add_token_to_line_with_prefix(
                     &mut result,
@@ -399,10 +341,12 @@ pub fn wrap_single_segment(
                     &mut is_first_line,
                 );
                 current_token.clear();
-                trailing_spaces.clear();
             }
-            current_token.push(ch);
+            trailing_spaces.clear();
         }
+        let len = unbreakable_len(rest, ch);
+        current_token.push_str(&rest[..len]);
+        pos += len;
     }
 
     // Handle the last token
@@ -428,6 +372,25 @@ pub fn wrap_single_segment(
     result
 }
 
+/// Length of what `text` starts with and no line break may divide: a code span, bracketed
+/// content, an escape, or a single character.
+fn unbreakable_len(text: &str, first: char) -> usize {
+    match first {
+        '\\' => {
+            1 + text[1..]
+                .chars()
+                .next()
+                .map_or(0, |ch| if ch == ' ' { 0 } else { ch.len_utf8() })
+        }
+        '`' => {
+            let run = text.len() - text.trim_start_matches('`').len();
+            run + escape::code_span_len(&text[run..], run)
+        }
+        '[' => escape::find_closing_bracket(&text[1..]).map_or(1, |end| end + 2),
+        _ => first.len_utf8(),
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
-- 
2.43.0


From 14798ff53e0a9c8e188c84b2ccd4f59d4ea81902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 23/54] fix: setext style for heading texts that begin with =
 or |

---
 src/serializer/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 3978670..a132d32 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -546,7 +546,8 @@ impl<'a> Serializer<'a> {
 
         // A setext heading is read line by line like a paragraph, so a text that would
         // start another block needs the ATX style
-        let setext_safe = !wrap::starts_other_block(&heading_text);
+        let setext_safe =
+            !wrap::starts_other_block(&heading_text) || heading_text.starts_with(['=', '|']);
 
         if level == 1 && self.options.setext_h1 && setext_safe {
             // Setext-style with '='
-- 
2.43.0


From 275ba8e08e152349c307648db6e81f275f578e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 24/54] fix: thematic break styles have one marker and no
 surrounding whitespace

---
 src/config.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..af78c0e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,14 +731,17 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        // Even a single marker of another type keeps the line from being a thematic break
+        if marker_counts.iter().filter(|(count, _)| *count > 0).count() > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
             ));
         }
 
-        Ok(Self(style))
+        // Leading spaces are configured separately, and more than three in total
+        // would make an indented code block
+        Ok(Self(trimmed.to_string()))
     }
 
     /// Get the inner value.
-- 
2.43.0


From 7f93ea416362f25b36acd876900c55d6628a0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 25/54] fix: one blank line after front matter, none at the end
 of the file

---
 src/serializer/document.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a132d32..793f53e 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -106,6 +106,9 @@ impl<'a> Serializer<'a> {
                 match directive {
                     Directive::DisableFile => {
                         // Output the directive comment, then output remaining content as-is
+                        if i > 0 {
+                            self.output.push('\n');
+                        }
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
                         let directive_end_line = child.data.borrow().sourcepos.end.line;
@@ -168,14 +171,15 @@ impl<'a> Serializer<'a> {
                 self.flush_footnote_references_before(Some(heading_line));
             }
 
-            // Add blank line between block elements (except after front matter)
+            // Add blank line between block elements
             if i > 0 {
                 let prev_is_front_matter = matches!(
                     &children[i - 1].data.borrow().value,
                     NodeValue::FrontMatter(_)
                 );
                 if prev_is_front_matter {
-                    // No extra blank line needed after front matter
+                    // A single blank line follows front matter
+                    self.output.push('\n');
                 } else if is_h2 {
                     // Check if previous element was a heading (empty section)
                     let prev_is_heading =
@@ -626,9 +630,9 @@ impl<'a> Serializer<'a> {
 
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
         // Front matter content from comrak includes the delimiters,
-        // so we preserve it verbatim and add a trailing blank line
+        // so we preserve it verbatim; a blank line separates it from a block that follows
         self.output.push_str(content.trim());
-        self.output.push_str("\n\n");
+        self.output.push('\n');
     }
 
     /// Recursively collect footnote reference lines from the AST.
-- 
2.43.0


From 809c7402800528c84113922d559b7d233ee7285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 26/54] fix: keep the last backslash of a link target; give no
 link a label that is plain text elsewhere

---
 src/lib.rs               | 24 ++++++++++----------
 src/serializer/escape.rs |  2 +-
 src/serializer/link.rs   |  1 +
 src/serializer/state.rs  | 49 ++++++++++++++++++++++++++++++++++------
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2dd7434..07ca37f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -210,6 +210,16 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     }
 
     let arena = Arena::new();
+    let comrak_options = parser_options();
+
+    let root = parse_document(&arena, &with_final_newline(input), &comrak_options);
+    let output = serializer::serialize_with_source(root, options, Some(input));
+
+    Ok(output)
+}
+
+/// The Markdown extensions the parser understands.
+pub(crate) fn parser_options<'c>() -> ComrakOptions<'c> {
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
     comrak_options.extension.table = true;
@@ -217,11 +227,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.alerts = true;
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
-
-    let root = parse_document(&arena, &with_final_newline(input), &comrak_options);
-    let output = serializer::serialize_with_source(root, options, Some(input));
-
-    Ok(output)
+    comrak_options
 }
 
 /// The input with its last line terminated: the parser does not recognize an empty list item
@@ -265,13 +271,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     }
 
     let arena = Arena::new();
-    let mut comrak_options = ComrakOptions::default();
-    comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-    comrak_options.extension.table = true;
-    comrak_options.extension.description_lists = true;
-    comrak_options.extension.alerts = true;
-    comrak_options.extension.footnotes = true;
-    comrak_options.extension.tasklist = true;
+    let comrak_options = parser_options();
 
     let root = parse_document(&arena, &with_final_newline(input), &comrak_options);
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index f5ea921..aa25e0b 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -136,7 +136,7 @@ pub fn push_link_target(output: &mut String, url: &str, title: &str) {
         && !url.starts_with('<')
         && !url.contains(|c: char| c <= ' ' || c == '\x7f');
     if bare {
-        push_escaped(output, url, "");
+        push_escaped(output, url, "\\");
     } else {
         output.push('<');
         push_escaped(output, url, "<>");
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 42ef442..71c29fe 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -75,6 +75,7 @@ impl<'a> Serializer<'a> {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
         if !escape::is_valid_link_label(&normalized_text)
+            || self.is_literal_label(&normalized_text)
             || !self.add_reference(normalized_text.clone(), url.to_string(), title.to_string())
         {
             // The text cannot serve as a label, or already stands for another target
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 64e6911..4b88193 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -1,8 +1,12 @@
 //! Serializer state and common types.
 
+use std::collections::HashSet;
+use std::sync::{Arc, Mutex};
+
 use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
+use comrak::options::BrokenLinkReference;
 use comrak::{Arena, Options as ComrakOptions, parse_document};
 
 use crate::Options;
@@ -196,6 +200,16 @@ pub struct Warning {
     pub message: String,
 }
 
+/// Labels are compared as Markdown does: case-insensitively, white space collapsed.
+fn normalize_label(label: &str) -> String {
+    label
+        .split(|c: char| c.is_whitespace() || c == '\x00')
+        .filter(|word| !word.is_empty())
+        .collect::<Vec<_>>()
+        .join(" ")
+        .to_lowercase()
+}
+
 /// Safely slice a string, ensuring the indices are valid UTF-8 boundaries.
 /// If the indices are not valid boundaries, adjusts to the nearest valid boundary.
 fn safe_str_slice(s: &str, start: usize, end: usize) -> &str {
@@ -255,6 +269,8 @@ pub struct Serializer<'a> {
     pub emitted_references: std::collections::HashSet<String>,
     /// Target and title of every reference label used so far, by normalized label
     pub reference_targets: std::collections::HashMap<String, (String, String)>,
+    /// Normalized labels the source has in brackets as plain text, once they are needed
+    pub literal_labels: Option<HashSet<String>>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Whether the list about to be serialized starts on the line of its parent item's marker
@@ -310,6 +326,7 @@ impl<'a> Serializer<'a> {
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
             reference_targets: std::collections::HashMap::new(),
+            literal_labels: None,
             footnotes: FootnoteSet::new(),
             list_on_marker_line: false,
             list_depth: 0,
@@ -350,6 +367,7 @@ impl<'a> Serializer<'a> {
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
             reference_targets: std::collections::HashMap::new(),
+            literal_labels: None,
             footnotes: FootnoteSet::new(),
             list_on_marker_line: false,
             list_depth: 0,
@@ -492,6 +510,29 @@ impl<'a> Serializer<'a> {
         })
     }
 
+    /// Whether the source has the label in brackets as plain text, which a definition of it
+    /// would turn into a link.
+    pub fn is_literal_label(&mut self, label: &str) -> bool {
+        let source_lines = &self.source_lines;
+        let labels = self.literal_labels.get_or_insert_with(|| {
+            let found = Arc::new(Mutex::new(HashSet::new()));
+            let arena = Arena::new();
+            let mut options = crate::parser_options();
+            let seen = Arc::clone(&found);
+            options.parse.broken_link_callback =
+                Some(Arc::new(move |reference: BrokenLinkReference| {
+                    if let Ok(mut seen) = seen.lock() {
+                        seen.insert(reference.normalized.to_string());
+                    }
+                    None
+                }));
+            parse_document(&arena, &(source_lines.join("\n") + "\n"), &options);
+            let labels = found.lock().map(|found| found.clone());
+            labels.unwrap_or_default()
+        });
+        !labels.is_empty() && labels.contains(&normalize_label(label))
+    }
+
     /// Add a reference link to the pending references.
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
@@ -499,13 +540,7 @@ impl<'a> Serializer<'a> {
     /// Returns false, without recording anything, if the label already stands for another
     /// target.
     pub fn add_reference(&mut self, label: String, url: String, title: String) -> bool {
-        // Labels are compared as Markdown does: case-insensitively, white space collapsed
-        let normalized = label
-            .split(|c: char| c.is_whitespace() || c == '\x00')
-            .filter(|word| !word.is_empty())
-            .collect::<Vec<_>>()
-            .join(" ")
-            .to_lowercase();
+        let normalized = normalize_label(&label);
         if let Some((known_url, known_title)) = self.reference_targets.get(&normalized) {
             return *known_url == url && *known_title == title;
         }
-- 
2.43.0


From 31dc2b63ee5ce8b250478931a19fab8ce86987dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 27/54] fix: keep text literal where the parser misplaces it,
 and labels that would become footnotes

---
 src/serializer/escape.rs | 12 ++++++++++++
 src/serializer/inline.rs |  7 ++++---
 src/serializer/mod.rs    | 10 ++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index aa25e0b..1d07fd8 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -70,6 +70,18 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Escape every character that could be read as Markdown syntax wherever it stands.
+pub fn escape_literal(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    for ch in text.chars() {
+        if "\\`*_[]<>&".contains(ch) {
+            result.push('\\');
+        }
+        result.push(ch);
+    }
+    result
+}
+
 /// Position of the `]` matching a `[` just before the text, leaving out escaped brackets and
 /// those in code spans.
 pub fn find_closing_bracket(text: &str) -> Option<usize> {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 8cfa149..a6d8476 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -392,9 +392,10 @@ impl<'a> Serializer<'a> {
             }
         }
 
-        // Handle any remaining text characters that weren't matched
-        for ch in text_chars.iter().skip(text_idx) {
-            result.push_str(&escape::escape_text(&ch.to_string()));
+        // If the source is not that of the text (the parser misplaces what follows a line break
+        // in a link target), keep everything literal
+        if text_idx < text_chars.len() {
+            return escape::escape_literal(text);
         }
 
         result
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52d119f..7d6ebe6 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -132,10 +132,20 @@ impl<'a> Serializer<'a> {
                     label
                 };
 
+                // Without the spaces around it, the label would become a footnote
+                if final_label.trim_start_matches('\x01').starts_with('^') {
+                    return None;
+                }
+
                 return Some((text, final_label));
             }
         }
 
+        // Without the spaces around it, the label would become a footnote
+        if text.starts_with('^') {
+            return None;
+        }
+
         // Shortcut reference: just [text] with nothing following
         // or followed by something that's not ( or [
         Some((text.clone(), text))
-- 
2.43.0


From ac4a9f04c1e34745646c578dc390ac5f0f5157e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 28/54] fix: count table cells whether or not the outer pipes
 are written

---
 src/serializer/table.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 496c1b4..bf448c2 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -150,32 +150,36 @@ impl<'a> Serializer<'a> {
                 continue;
             }
 
-            // Count unescaped pipe characters (column separators)
-            let pipe_count = count_unescaped_pipes(line);
-
-            // A row with N columns has N+1 pipe characters (including leading and trailing)
-            // But some tables may omit leading/trailing pipes
-            // Expected: expected_cols + 1 pipes for a proper table row
-            // Allow expected_cols pipes if leading or trailing is omitted
-            let expected_pipes_full = expected_cols + 1;
-            let expected_pipes_min = expected_cols;
-
-            if pipe_count > expected_pipes_full {
+            // Count the cells by the unescaped pipes between them; a leading and a trailing
+            // one may be omitted
+            let row = if line_num == start_line {
+                line.get(sourcepos.start.column.saturating_sub(1)..)
+                    .unwrap_or(line)
+            } else {
+                line.trim_start_matches([' ', '\t', '>'])
+            };
+            let row = row.trim();
+            let has_leading = row.starts_with('|');
+            let has_trailing = row.len() > 1 && row.ends_with('|') && !row.ends_with("\\|");
+            let cols = count_unescaped_pipes(row) + 1
+                - usize::from(has_leading)
+                - usize::from(has_trailing);
+
+            if cols > expected_cols {
                 self.add_warning(
                     line_num,
                     format!(
-                        "table row has {} pipe characters, expected {} for {} columns; \
+                        "table row has {} cells, expected {}; \
                          unescaped `|` in cell content? (table starts at line {})",
-                        pipe_count, expected_pipes_full, expected_cols, table_start_line
+                        cols, expected_cols, table_start_line
                     ),
                 );
-            } else if pipe_count < expected_pipes_min {
+            } else if cols < expected_cols {
                 self.add_warning(
                     line_num,
                     format!(
-                        "table row has {} pipe characters, expected at least {} for {} columns \
-                         (table starts at line {})",
-                        pipe_count, expected_pipes_min, expected_cols, table_start_line
+                        "table row has {} cells, expected {} (table starts at line {})",
+                        cols, expected_cols, table_start_line
                     ),
                 );
             }
-- 
2.43.0


From 99eefc18436a78c05d06cb2bdbd21ae8b569cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 29/54] fix: never open front matter with a thematic break

---
 src/serializer/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 793f53e..f9467c5 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -881,8 +881,9 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&self.blockquote_prefix);
         }
 
-        // Add leading spaces
-        for _ in 0..leading_spaces {
+        // Add leading spaces; `---` at the very beginning would open front matter
+        let opens_front_matter = self.output.is_empty() && style.trim_end() == "---";
+        for _ in 0..leading_spaces.max(usize::from(opens_front_matter)) {
             self.output.push(' ');
         }
 
-- 
2.43.0


From 2bc19801741ace986da02d7339e58926813b9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 30/54] fix: emphasis delimiters that keep their meaning next
 to words and inside one another

---
 src/serializer/state.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 4b88193..983213a 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -568,11 +568,18 @@ impl<'a> Serializer<'a> {
     }
 
     /// Get the emphasis delimiter character.
-    /// Uses '_' if the content contains '*' (to avoid escaping).
+    /// Uses '_' if the content contains '*' (to avoid escaping) or begins or ends with another
+    /// emphasis, unless the emphasis is next to a word, where '_' has no meaning.
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
-        // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        let is_emphasis = |child: Option<&'b AstNode<'b>>| {
+            child.is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Emph))
+        };
+        if (self.node_text_contains_char(node, '*')
+            || is_emphasis(node.first_child())
+            || is_emphasis(node.last_child()))
+            && !Self::is_next_to_word(node)
+        {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -585,11 +592,12 @@ impl<'a> Serializer<'a> {
     }
 
     /// Get the strong emphasis delimiter string.
-    /// Uses "__" if the content contains '*' (to avoid escaping).
+    /// Uses "__" if the content contains '*' (to avoid escaping), unless the emphasis is next
+    /// to a word, where "__" has no meaning.
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && !Self::is_next_to_word(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -601,6 +609,17 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Whether text without white space or punctuation in between precedes or follows the node.
+    fn is_next_to_word<'b>(node: &'b AstNode<'b>) -> bool {
+        let text_of = |sibling: Option<&'b AstNode<'b>>| match &sibling?.data.borrow().value {
+            NodeValue::Text(text) => Some(text.to_string()),
+            _ => None,
+        };
+        let is_word = |c: char| !c.is_whitespace() && !c.is_ascii_punctuation();
+        text_of(node.previous_sibling()).is_some_and(|text| text.ends_with(is_word))
+            || text_of(node.next_sibling()).is_some_and(|text| text.starts_with(is_word))
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From e3b6c4f25f8745841b6dde3d1d9674e2e53800d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 31/54] fix: align what follows a list in description details;
 escape block markers after hard breaks

---
 src/serializer/document.rs | 30 +++++++++++++++++++++---------
 src/serializer/wrap.rs     | 25 +++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f9467c5..785eb53 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -397,6 +397,12 @@ impl<'a> Serializer<'a> {
             String::new()
         };
 
+        // What follows a list is aligned with it, as the list is set off by one more space
+        let starts_with_list = children
+            .first()
+            .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::List(_)));
+        let indent = if starts_with_list { "     " } else { "    " };
+
         if children.is_empty() {
             // A marker needs white space after it even if nothing follows
             self.output.push_str(&blockquote_prefix);
@@ -454,18 +460,18 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types start on the marker line
-                        self.serialize_in_details(child, &blockquote_prefix, ":   ");
+                        self.serialize_in_details(child, &blockquote_prefix, ":   ", "    ");
                     }
                 }
             } else {
-                // Subsequent children: need blank line and 4-space indent
+                // Subsequent children: need blank line and indent
                 self.push_blank_line();
                 match child_value {
                     NodeValue::Paragraph => {
-                        let first_prefix = format!("{}    ", blockquote_prefix);
+                        let first_prefix = format!("{}{}", blockquote_prefix, indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = format!("{}    ", blockquote_prefix);
+                        let continuation = first_prefix.clone();
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim_matches(' '),
                             &first_prefix,
@@ -477,8 +483,8 @@ impl<'a> Serializer<'a> {
                     }
                     NodeValue::CodeBlock(code) => {
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
-                        self.serialize_code_block_indented(&code.info, &code.literal, "    ");
+                        self.output.push_str(indent);
+                        self.serialize_code_block_indented(&code.info, &code.literal, indent);
                     }
                     NodeValue::List(_) => {
                         // Lists handle their own indentation via in_description_details flag
@@ -486,7 +492,7 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types
-                        self.serialize_in_details(child, &blockquote_prefix, "    ");
+                        self.serialize_in_details(child, &blockquote_prefix, indent, indent);
                     }
                 }
             }
@@ -496,14 +502,20 @@ impl<'a> Serializer<'a> {
     }
 
     /// Serialize a block of description details, indenting each of its lines.
-    fn serialize_in_details<'b>(&mut self, node: &'b AstNode<'b>, prefix: &str, marker: &str) {
+    fn serialize_in_details<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        prefix: &str,
+        marker: &str,
+        indent: &str,
+    ) {
         let block = self.serialize_apart(node);
         for (i, line) in block.trim_end().split('\n').enumerate() {
             if line.is_empty() {
                 self.output.push_str(prefix.trim_end());
             } else {
                 self.output.push_str(prefix);
-                self.output.push_str(if i == 0 { marker } else { "    " });
+                self.output.push_str(if i == 0 { marker } else { indent });
             }
             self.output.push_str(line);
             self.output.push('\n');
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 01be60c..47ec1f3 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -1,5 +1,7 @@
 //! Text wrapping utilities for Markdown serialization.
 
+use std::borrow::Cow;
+
 use unicode_width::UnicodeWidthStr;
 
 use super::escape;
@@ -81,6 +83,27 @@ fn hard_break(segment: &str) -> &'static str {
     }
 }
 
+/// Escape the start of a line after a hard break that would make a block of it or the lines
+/// before: it cannot join the line before as it does after a soft break.
+fn escape_after_hard_breaks(text: &str) -> Cow<'_, str> {
+    let is_marker =
+        |segment: &str| segment.starts_with(['=', ':', '~', '|', '-']) && starts_block(segment);
+    if !text.split('\n').skip(1).any(is_marker) {
+        return text.into();
+    }
+    let mut result = String::with_capacity(text.len() + 1);
+    for (idx, segment) in text.split('\n').enumerate() {
+        if idx > 0 {
+            result.push('\n');
+            if is_marker(segment) {
+                result.push('\\');
+            }
+        }
+        result.push_str(segment);
+    }
+    result.into()
+}
+
 /// Add a wrapped segment that ends with a hard break, or the whole prefix where the segment is
 /// empty: the mark of the break follows it on the same line.
 fn push_segment(result: &mut String, wrapped: &str, segment: &str, prefix: &str) {
@@ -102,6 +125,7 @@ fn push_segment(result: &mut String, wrapped: &str, segment: &str, prefix: &str)
 pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     // First, split by hard line breaks (actual newlines)
     // These must be preserved with two trailing spaces
+    let text = &escape_after_hard_breaks(text);
     let hard_break_segments: Vec<&str> = text.split('\n').collect();
 
     if hard_break_segments.len() == 1 {
@@ -192,6 +216,7 @@ pub fn wrap_text_first_line(
 ) -> String {
     // First, split by hard line breaks (actual newlines)
     // These must be preserved with two trailing spaces
+    let text = &escape_after_hard_breaks(text);
     let hard_break_segments: Vec<&str> = text.split('\n').collect();
 
     if hard_break_segments.len() == 1 {
-- 
2.43.0


From 609989a526efe07d62ac5cff397bbe16ed81475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 32/54] fix: nested emphases alternate their delimiters only
 where they would clash

---
 src/serializer/state.rs | 47 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 983213a..01af6a6 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -568,27 +568,42 @@ impl<'a> Serializer<'a> {
     }
 
     /// Get the emphasis delimiter character.
-    /// Uses '_' if the content contains '*' (to avoid escaping) or begins or ends with another
-    /// emphasis, unless the emphasis is next to a word, where '_' has no meaning.
+    /// Uses '_' if the content contains '*' (to avoid escaping), unless the emphasis is next to
+    /// a word, where '_' has no meaning.
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
+    /// An emphasis that begins or ends with another one takes the other delimiter.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
-        let is_emphasis = |child: Option<&'b AstNode<'b>>| {
-            child.is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Emph))
-        };
-        if (self.node_text_contains_char(node, '*')
-            || is_emphasis(node.first_child())
-            || is_emphasis(node.last_child()))
-            && !Self::is_next_to_word(node)
-        {
-            return '_';
-        }
-        // Otherwise, preserve original delimiter or default to '*'
-        if let Some(source) = self.extract_source(node)
+        let is_next_to_word = Self::is_next_to_word(node);
+        let delimiter = if self.node_text_contains_char(node, '*') && !is_next_to_word {
+            '_'
+        } else if let Some(source) = self.extract_source(node)
             && source.starts_with('_')
         {
-            return '_';
+            // Preserve original delimiter
+            '_'
+        } else {
+            '*'
+        };
+        let clashes = |child: Option<&'b AstNode<'b>>| {
+            child.is_some_and(|child| {
+                matches!(child.data.borrow().value, NodeValue::Emph)
+                    && self.get_emphasis_delimiter(child) == delimiter
+            })
+        };
+        if !clashes(node.first_child())
+            && (node
+                .first_child()
+                .is_some_and(|child| child.next_sibling().is_none())
+                || !clashes(node.last_child()))
+        {
+            delimiter
+        } else if delimiter == '_' {
+            '*'
+        } else if is_next_to_word {
+            delimiter
+        } else {
+            '_'
         }
-        '*'
     }
 
     /// Get the strong emphasis delimiter string.
-- 
2.43.0


From 952d97ae49b8b1a403b68ca919ea778b2bb7dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 33/54] fix: HTML blocks at the end of a document stay apart

---
 src/serializer/document.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 785eb53..94ec143 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -360,24 +360,26 @@ impl<'a> Serializer<'a> {
         children: &[&'b AstNode<'b>],
         start_index: usize,
     ) {
-        let mut is_first = true;
+        let mut previous_end_line: Option<usize> = None;
         for (i, child) in children.iter().enumerate() {
             if i < start_index {
                 continue;
             }
 
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
-                // Add a blank line before the first trailing HTML block
-                if is_first {
-                    if !self.output.ends_with("\n\n") {
+                let sourcepos = child.data.borrow().sourcepos;
+                // Add a blank line before the first trailing HTML block, and before
+                // the others that are set off by one
+                if previous_end_line.is_none_or(|end| end + 1 < sourcepos.start.line) {
+                    if !self.output.is_empty() && !self.output.ends_with("\n\n") {
                         if self.output.ends_with('\n') {
                             self.output.push('\n');
                         } else {
                             self.output.push_str("\n\n");
                         }
                     }
-                    is_first = false;
                 }
+                previous_end_line = Some(sourcepos.end.line);
                 self.output.push_str(&html_block.literal);
             }
         }
-- 
2.43.0


From b504a886368fd2d047e96d27ce02bcfb0e611caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 34/54] fix: literal block markers at the start of a paragraph,
 first definition of a footnote, trailing spaces of quoted HTML

---
 src/serializer/inline.rs | 32 ++++++++++++++++++++++++++++++++
 src/serializer/mod.rs    |  7 ++++++-
 src/serializer/state.rs  | 10 +++++-----
 3 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index a6d8476..9e9dfe9 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -140,9 +140,41 @@ impl<'a> Serializer<'a> {
         node: &'b AstNode<'b>,
         content: &mut String,
     ) {
+        let start = content.len();
         for child in node.children() {
             self.collect_inline_node(child, content);
         }
+        if matches!(node.data.borrow().value, NodeValue::Paragraph)
+            && let Some(pos) = self.literal_block_marker(node, &content[start..])
+        {
+            content.insert(start + pos, '\\');
+        }
+    }
+
+    /// Where a paragraph starts with what would be read as a list marker: it is literal if the
+    /// definition before it, which is output elsewhere, kept it from being one.  Likewise for
+    /// the marker of description details.
+    fn literal_block_marker<'b>(&self, node: &'b AstNode<'b>, content: &str) -> Option<usize> {
+        let word = content.split([' ', '\x00', '\n']).next()?;
+        let is_number = |digits: &str| {
+            (1..=9).contains(&digits.len()) && digits.bytes().all(|byte| byte.is_ascii_digit())
+        };
+        match word {
+            "-" | "+" | "*" => Some(0),
+            ":" | "~" => node
+                .previous_sibling()
+                .is_some_and(|previous| {
+                    matches!(
+                        previous.data.borrow().value,
+                        NodeValue::Paragraph | NodeValue::DescriptionList
+                    )
+                })
+                .then_some(0),
+            _ => word
+                .strip_suffix(['.', ')'])
+                .filter(|digits| is_number(digits))
+                .map(str::len),
+        }
     }
 
     pub(super) fn collect_inline_node<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String) {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 7d6ebe6..adb7617 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -470,7 +470,12 @@ impl<'a> Serializer<'a> {
                 if self.in_block_quote {
                     let prefix = self.blockquote_prefix.clone();
                     for line in html_block.literal.lines() {
-                        self.output.push_str(format!("{prefix}{line}").trim_end());
+                        if line.is_empty() {
+                            self.output.push_str(prefix.trim_end());
+                        } else {
+                            self.output.push_str(&prefix);
+                            self.output.push_str(line);
+                        }
                         self.output.push('\n');
                     }
                 } else {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 01af6a6..45e91ab 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -151,15 +151,15 @@ impl FootnoteSet {
 
     /// Add a footnote definition.
     pub fn add(&mut self, name: String, content: String, reference_line: usize, has_blocks: bool) {
-        self.pending.insert(
-            name.clone(),
-            FootnoteDefinition {
+        // The first definition of a name is the one that counts
+        self.pending
+            .entry(name.clone())
+            .or_insert(FootnoteDefinition {
                 name,
                 content,
                 reference_line,
                 has_blocks,
-            },
-        );
+            });
     }
 
     /// Record the line where a footnote is referenced.
-- 
2.43.0


From 4ac4f783863b28437ad72f6f8b801ab10a984ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 35/54] fix: thematic breaks in list items keep out of the list
 before them; lists set off by a blank line are loose

---
 src/serializer/document.rs | 14 ++++++++++---
 src/serializer/list.rs     | 42 ++++++++++++++++++++++++++++++--------
 src/serializer/mod.rs      |  2 +-
 src/serializer/state.rs    |  4 ++++
 4 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 94ec143..95e1979 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -512,7 +512,11 @@ impl<'a> Serializer<'a> {
         indent: &str,
     ) {
         let block = self.serialize_apart(node);
-        for (i, line) in block.trim_end().split('\n').enumerate() {
+        let mut block = block.trim_end();
+        if self.break_joins_list(node, indent.len()) {
+            block = block.trim_start();
+        }
+        for (i, line) in block.split('\n').enumerate() {
             if line.is_empty() {
                 self.output.push_str(prefix.trim_end());
             } else {
@@ -886,9 +890,13 @@ impl<'a> Serializer<'a> {
         false
     }
 
-    pub(super) fn serialize_thematic_break(&mut self) {
+    pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
-        let leading_spaces = self.options.thematic_break_leading_spaces.get();
+        let leading_spaces = if self.break_joins_list(node, 0) {
+            0
+        } else {
+            self.options.thematic_break_leading_spaces.get()
+        };
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 6aa56af..e183ca5 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -147,7 +147,10 @@ impl<'a> Serializer<'a> {
     fn item_needs_blank_line<'b>(item: &'b AstNode<'b>) -> bool {
         item.children()
             .skip(1)
-            .any(|child| !matches!(child.data.borrow().value, NodeValue::List(_)))
+            .any(|child| match child.data.borrow().value {
+                NodeValue::List(_) => child.previous_sibling().is_some_and(ends_with_newline),
+                _ => true,
+            })
     }
 
     pub(super) fn serialize_list<'b>(
@@ -245,7 +248,7 @@ impl<'a> Serializer<'a> {
         let children: Vec<_> = node.children().collect();
         // Base indentation for continuation lines (paragraphs, code blocks, etc.)
         // This matches the marker width so content aligns properly
-        let base_indent = " ".repeat(self.list_indent + marker.len());
+        let mut base_indent = " ".repeat(self.list_indent + marker.len());
 
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
@@ -347,8 +350,10 @@ impl<'a> Serializer<'a> {
                     let marker_end = self.output.len();
                     let is_break = matches!(&child.data.borrow().value, NodeValue::ThematicBreak);
                     let on_own_line = is_first && is_break;
-                    if on_own_line {
+                    if on_own_line || self.break_joins_list(child, base_indent.len()) {
                         block = block.trim_start();
+                    }
+                    if on_own_line {
                         self.output.push('\n');
                     }
                     for (line_index, line) in block.split('\n').enumerate() {
@@ -365,8 +370,16 @@ impl<'a> Serializer<'a> {
                         }
                         self.output.push_str(line);
                     }
-                    if on_own_line {
-                        self.join_marker_line(marker_end);
+                    if on_own_line && !self.join_marker_line(marker_end) {
+                        // After a marker alone on its line, the contents start one column on
+                        let width = marker.len() - marker.trim_end().len();
+                        base_indent.truncate(base_indent.len() - width + 1);
+                        self.list_item_indent.clone_from(&base_indent);
+                        self.output.truncate(marker_end);
+                        self.output.push('\n');
+                        self.output.push_str(&quote_prefix);
+                        self.output.push_str(&base_indent);
+                        self.output.push_str(block);
                     }
                 }
                 _ => {
@@ -377,6 +390,7 @@ impl<'a> Serializer<'a> {
 
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
+        self.list_content_column = base_indent.len();
 
         // Only add newline if the last child doesn't already end with one
         // (nested lists, code blocks, and blockquotes add their own newlines)
@@ -387,10 +401,11 @@ impl<'a> Serializer<'a> {
 
     /// Move the first block of a list item, which was written below the marker, next to it: an
     /// item without contents on its first line cannot follow a paragraph.
-    fn join_marker_line(&mut self, marker_end: usize) {
+    /// Returns whether it could be moved.
+    fn join_marker_line(&mut self, marker_end: usize) -> bool {
         let indent = format!("\n{}{}", self.quote_line_prefix(), self.list_item_indent);
         let Some(block) = self.output[marker_end..].strip_prefix(&indent) else {
-            return;
+            return false;
         };
         // The line may read as one long thematic break though
         let line_start = self.output[..marker_end]
@@ -403,10 +418,21 @@ impl<'a> Serializer<'a> {
             .collect();
         let first = line.chars().next().unwrap_or_default();
         if line.len() >= 3 && matches!(first, '-' | '*') && line.chars().all(|ch| ch == first) {
-            return;
+            return false;
         }
         self.output
             .replace_range(marker_end..marker_end + indent.len(), "");
+        true
+    }
+
+    /// Whether a thematic break, in a block indented this far, would be part of the list before
+    /// it with its leading spaces.
+    pub(super) fn break_joins_list<'b>(&self, node: &'b AstNode<'b>, indent: usize) -> bool {
+        matches!(node.data.borrow().value, NodeValue::ThematicBreak)
+            && node
+                .previous_sibling()
+                .is_some_and(|previous| matches!(previous.data.borrow().value, NodeValue::List(_)))
+            && indent + self.options.thematic_break_leading_spaces.get() >= self.list_content_column
     }
 
     /// Serialize a block as if it stood at the top level, for the caller to indent.
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index adb7617..0dfbcee 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -542,7 +542,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_paragraph(node);
             }
             NodeValue::ThematicBreak => {
-                self.serialize_thematic_break();
+                self.serialize_thematic_break(node);
             }
             NodeValue::Text(text) => {
                 self.output.push_str(&escape::escape_text(text));
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 45e91ab..da9282d 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -279,6 +279,8 @@ pub struct Serializer<'a> {
     pub list_depth: usize,
     /// Indentation of the items of the current list
     pub list_indent: usize,
+    /// Where the contents of the last list item written start.
+    pub list_content_column: usize,
     /// Source of the parts of the document that are not formatted
     pub disabled_source: Vec<String>,
     /// Whether we're inside a description details block (for indentation)
@@ -331,6 +333,7 @@ impl<'a> Serializer<'a> {
             list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
+            list_content_column: 0,
             disabled_source: Vec::new(),
             in_description_details: false,
             description_details_first_list: false,
@@ -372,6 +375,7 @@ impl<'a> Serializer<'a> {
             list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
+            list_content_column: 0,
             disabled_source: Vec::new(),
             in_description_details: false,
             description_details_first_list: false,
-- 
2.43.0


From 091d94b2453bc615170495804b76153447466df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 36/54] fix: footnote definitions that another of the same name
 follows; thematic breaks at the start of description details

---
 src/serializer/document.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 95e1979..ff75230 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -10,6 +10,15 @@ use super::wrap;
 
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
+        // Footnote definitions are output apart from what holds them.  The parser leaves those
+        // that another one of the same name follows where they are.
+        let definitions: Vec<_> = node
+            .descendants()
+            .filter(|n| matches!(n.data.borrow().value, NodeValue::FootnoteDefinition(_)))
+            .collect();
+        for definition in definitions {
+            node.append(definition);
+        }
         let children: Vec<_> = node.children().collect();
 
         // Check for undefined reference links using AST
@@ -513,7 +522,10 @@ impl<'a> Serializer<'a> {
     ) {
         let block = self.serialize_apart(node);
         let mut block = block.trim_end();
-        if self.break_joins_list(node, indent.len()) {
+        // Leading spaces after the marker would shift where the contents start
+        let after_marker =
+            marker != indent && matches!(node.data.borrow().value, NodeValue::ThematicBreak);
+        if after_marker || self.break_joins_list(node, indent.len()) {
             block = block.trim_start();
         }
         for (i, line) in block.split('\n').enumerate() {
-- 
2.43.0


From c90ac9b446501987417a3815c794776cbad5d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 37/54] fix: emphasis delimiters that touch others keep what
 they mean

---
 src/serializer/inline.rs | 24 +++++++++--
 src/serializer/state.rs  | 87 +++++++++++++++++++++++++---------------
 2 files changed, 75 insertions(+), 36 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 9e9dfe9..98c344f 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -45,7 +45,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    text.push_str(&self.escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&self.escape_text_preserving_source(node, &transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -185,7 +185,11 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&self.escape_text_preserving_source(
+                        node,
+                        &transformed,
+                        &source,
+                    ));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -336,7 +340,15 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(&self, text: &str, source: &str) -> String {
+    /// Where emphasis delimiters touch, so are the characters that could be delimiters but are
+    /// not: what the others mean depends on them.
+    fn escape_text_preserving_source<'b>(
+        &self,
+        node: &'b AstNode<'b>,
+        text: &str,
+        source: &str,
+    ) -> String {
+        let keep_delimiters = text.contains(['*', '_']) && self.delimiters_touch(node);
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -414,7 +426,11 @@ impl<'a> Serializer<'a> {
                 }
             } else if source_char == text_char {
                 // Characters match - apply normal escaping rules
-                result.push_str(&escape::escape_text(&text_char.to_string()));
+                if keep_delimiters && matches!(text_char, '*' | '_') {
+                    result.push(text_char);
+                } else {
+                    result.push_str(&escape::escape_text(&text_char.to_string()));
+                }
                 text_idx += 1;
                 source_idx += 1;
             } else {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index da9282d..685d1d6 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -573,50 +573,34 @@ impl<'a> Serializer<'a> {
 
     /// Get the emphasis delimiter character.
     /// Uses '_' if the content contains '*' (to avoid escaping), unless the emphasis is next to
-    /// a word, where '_' has no meaning.
+    /// a word, where '_' has no meaning, or its delimiters touch others.
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
-    /// An emphasis that begins or ends with another one takes the other delimiter.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
-        let is_next_to_word = Self::is_next_to_word(node);
-        let delimiter = if self.node_text_contains_char(node, '*') && !is_next_to_word {
-            '_'
-        } else if let Some(source) = self.extract_source(node)
-            && source.starts_with('_')
+        if self.node_text_contains_char(node, '*')
+            && !Self::is_next_to_word(node)
+            && !self.delimiters_touch(node)
         {
-            // Preserve original delimiter
-            '_'
-        } else {
-            '*'
-        };
-        let clashes = |child: Option<&'b AstNode<'b>>| {
-            child.is_some_and(|child| {
-                matches!(child.data.borrow().value, NodeValue::Emph)
-                    && self.get_emphasis_delimiter(child) == delimiter
-            })
-        };
-        if !clashes(node.first_child())
-            && (node
-                .first_child()
-                .is_some_and(|child| child.next_sibling().is_none())
-                || !clashes(node.last_child()))
+            return '_';
+        }
+        // Otherwise, preserve original delimiter or default to '*'
+        if let Some(source) = self.extract_source(node)
+            && source.starts_with('_')
         {
-            delimiter
-        } else if delimiter == '_' {
-            '*'
-        } else if is_next_to_word {
-            delimiter
-        } else {
-            '_'
+            return '_';
         }
+        '*'
     }
 
     /// Get the strong emphasis delimiter string.
     /// Uses "__" if the content contains '*' (to avoid escaping), unless the emphasis is next
-    /// to a word, where "__" has no meaning.
+    /// to a word, where "__" has no meaning, or its delimiters touch others.
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') && !Self::is_next_to_word(node) {
+        if self.node_text_contains_char(node, '*')
+            && !Self::is_next_to_word(node)
+            && !self.delimiters_touch(node)
+        {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -639,6 +623,45 @@ impl<'a> Serializer<'a> {
             || text_of(node.next_sibling()).is_some_and(|text| text.starts_with(is_word))
     }
 
+    /// Whether some delimiters in the block this emphasis is in stand next to those of another
+    /// emphasis or to a literal '*' or '_'.  What they mean then depends on all of them.
+    pub fn delimiters_touch<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        let is_emphasis = |node: &'b AstNode<'b>| {
+            matches!(
+                node.data.borrow().value,
+                NodeValue::Emph | NodeValue::Strong | NodeValue::Strikethrough
+            )
+        };
+        let touches = |neighbour: Option<&'b AstNode<'b>>, at_end: bool| {
+            neighbour.is_some_and(|neighbour| match &neighbour.data.borrow().value {
+                NodeValue::Text(text) => {
+                    // Escaped characters have no part in it
+                    self.extract_text_source(neighbour).is_some_and(|source| {
+                        if at_end {
+                            text.ends_with(['*', '_'])
+                                && !(source.ends_with("\\*") || source.ends_with("\\_"))
+                        } else {
+                            text.starts_with(['*', '_']) && !source.starts_with('\\')
+                        }
+                    })
+                }
+                _ => is_emphasis(neighbour),
+            })
+        };
+        let block = node
+            .ancestors()
+            .find(|ancestor| ancestor.data.borrow().value.block());
+        block.is_some_and(|block| {
+            block.descendants().any(|n| {
+                is_emphasis(n)
+                    && (touches(n.previous_sibling(), true)
+                        || touches(n.next_sibling(), false)
+                        || touches(n.first_child(), false)
+                        || touches(n.last_child(), true))
+            })
+        })
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From c282b43147459c8a9f34892f5898728c427e7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 38/54] fix: autolinks in headings stay autolinks

---
 src/serializer/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 98c344f..4ed3a46 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -98,6 +98,8 @@ impl<'a> Serializer<'a> {
                 // Handle reference-style links in headings
                 if let Some((link_text, label)) = self.get_reference_style_info(node) {
                     self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
+                } else if Self::is_autolink(&self.collect_raw_text(node), &link.url, &link.title) {
+                    Self::format_autolink(text, &link.url);
                 } else {
                     // For inline links, just output plain text (or format as inline?)
                     // In headings, we typically want reference style for external links
-- 
2.43.0


From 905b37c2da93496cc5d4a9afc9372ef16bc71e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 39/54] fix: hard breaks next to delimiters keep their
 backslash

---
 src/serializer/inline.rs | 12 ++++++++++++
 src/serializer/wrap.rs   | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 4ed3a46..75ff319 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use super::wrap;
 use crate::DashSetting;
 
 impl<'a> Serializer<'a> {
@@ -202,6 +203,17 @@ impl<'a> Serializer<'a> {
                 content.push('\x00');
             }
             NodeValue::LineBreak => {
+                // What a delimiter means depends on whether a space or a backslash follows
+                if content.ends_with(['*', '_', '~']) {
+                    if self
+                        .extract_source(node)
+                        .is_some_and(|source| source.starts_with('\\'))
+                    {
+                        content.push('\\');
+                    }
+                } else if wrap::ends_with_backslash_break(content) {
+                    content.push('\\');
+                }
                 content.push('\n');
             }
             NodeValue::Emph => {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 47ec1f3..14edc06 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -71,9 +71,19 @@ pub fn starts_other_block(text: &str) -> bool {
         || (text.starts_with('<') && text.trim_end().ends_with('>'))
 }
 
+/// Whether a hard-broken segment has the backslash of its break already: where it follows what
+/// may be a delimiter, and is not escaped.
+pub fn ends_with_backslash_break(segment: &str) -> bool {
+    let text = segment.trim_end_matches('\\');
+    (segment.len() - text.len()) % 2 == 1 && text.ends_with(['*', '_', '~'])
+}
+
 /// The end of a hard-broken segment: two trailing spaces, or a backslash where the spaces
 /// would be alone on their line or follow what would then be a block marker.
 fn hard_break(segment: &str) -> &'static str {
+    if ends_with_backslash_break(segment) {
+        return "\n";
+    }
     let lines = split_soft_breaks(segment);
     let last_line = lines.last().map_or("", |line| line.trim());
     if last_line.is_empty() || starts_other_block(last_line) {
-- 
2.43.0


From 8b7f47e83a332ecbf2bd8da2bd9bc0223017218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 40/54] fix: ordered lists nested in bullets reach the contents
 of their item

---
 src/serializer/list.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index e183ca5..1e0e8de 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -116,14 +116,18 @@ impl<'a> Serializer<'a> {
                 self.options.leading_spaces.get(),
             ),
         };
-        // A list reaching the contents of its parent item with the configured widths does
-        // so next to a wider marker too (like "1000. "), and none reaches so far beyond
-        // them that it would be an indented code block
+        // A list reaches the contents of its parent item, unless both have bullets and the
+        // configured widths do not let it, but none reaches so far beyond them that it would
+        // be an indented code block
         let marker_width = self.list_item_indent.len().saturating_sub(self.list_indent);
-        let step = if indent_width + leading >= self.calculate_marker_width() {
-            indent_width.max(marker_width.saturating_sub(leading))
-        } else {
+        let is_narrow = matches!(
+            (self.list_type, list_type),
+            (Some(ListType::Bullet), ListType::Bullet)
+        ) && indent_width + leading < self.calculate_marker_width();
+        let step = if is_narrow {
             indent_width
+        } else {
+            indent_width.max(marker_width.saturating_sub(leading))
         };
         self.list_indent + step.min((marker_width + 3).saturating_sub(leading))
     }
-- 
2.43.0


From 131619eccde49d64161294fcf9317e4e27e2cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 41/54] fix: setext headings keep their hard line breaks

---
 src/serializer/document.rs | 14 ++++++++++----
 src/serializer/inline.rs   |  7 ++++++-
 src/serializer/link.rs     |  6 +++---
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ff75230..b891e11 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -583,21 +583,27 @@ impl<'a> Serializer<'a> {
         let setext_safe =
             !wrap::starts_other_block(&heading_text) || heading_text.starts_with(['=', '|']);
 
+        // Only a setext heading has room for hard line breaks
+        let setext_text = wrap::wrap_text_first_line(&heading_text, "", &prefix, usize::MAX);
+        let setext_width = heading_text.split('\n').map(|line| line.width()).max();
+        let setext_width = setext_width.unwrap_or_default();
+
         if level == 1 && self.options.setext_h1 && setext_safe {
             // Setext-style with '='
-            self.output.push_str(&heading_text);
+            self.output.push_str(&setext_text);
             self.output.push('\n');
             self.output.push_str(&prefix);
-            self.output.push_str(&"=".repeat(heading_text.width()));
+            self.output.push_str(&"=".repeat(setext_width));
             self.output.push('\n');
         } else if level == 2 && self.options.setext_h2 && setext_safe {
             // Setext-style with '-'
-            self.output.push_str(&heading_text);
+            self.output.push_str(&setext_text);
             self.output.push('\n');
             self.output.push_str(&prefix);
-            self.output.push_str(&"-".repeat(heading_text.width()));
+            self.output.push_str(&"-".repeat(setext_width));
             self.output.push('\n');
         } else {
+            let mut heading_text = heading_text.replace('\n', " ");
             // ATX-style for level 3+ or when setext is disabled
             self.output.push_str(&"#".repeat(level as usize));
             self.output.push(' ');
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 75ff319..9188eda 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -83,9 +83,12 @@ impl<'a> Serializer<'a> {
                 }
                 text.push_str(delim);
             }
-            NodeValue::SoftBreak | NodeValue::LineBreak => {
+            NodeValue::SoftBreak => {
                 text.push(' ');
             }
+            NodeValue::LineBreak => {
+                text.push('\n');
+            }
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is, on a single line
                 text.push_str(&html.replace('\n', " "));
@@ -108,6 +111,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_text_recursive(child, &mut link_text);
                     }
+                    let link_text = link_text.replace('\n', " ");
                     if Self::is_external_url(&link.url) {
                         let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
@@ -128,6 +132,7 @@ impl<'a> Serializer<'a> {
                 for child in node.children() {
                     self.collect_text_recursive(child, &mut alt_text);
                 }
+                let alt_text = alt_text.replace('\n', " ");
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
             _ => {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 71c29fe..ae52da7 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -211,7 +211,7 @@ impl<'a> Serializer<'a> {
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
         } else if Self::is_external_url(url) {
-            let link_text = self.collect_text(node);
+            let link_text = self.collect_text(node).replace('\n', " ");
             let mut output = String::new();
             let use_collapsed = Self::next_sibling_starts_with_bracket(node);
             self.format_external_link_as_reference(
@@ -224,14 +224,14 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&output);
         } else {
             // Relative/local URL: keep as inline link
-            let link_text = self.collect_text(node);
+            let link_text = self.collect_text(node).replace('\n', " ");
             Self::format_inline_link(&mut self.output, &link_text, url, title);
         }
     }
 
     pub(super) fn serialize_image<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) {
         // Collect the alt text
-        let alt_text = self.collect_text(node);
+        let alt_text = self.collect_text(node).replace('\n', " ");
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
-- 
2.43.0


From 4533578c868fb5dbb9d1b2f3906e1d9113d8f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 42/54] fix: lists right after another do not reach the
 contents of its last item

---
 src/serializer/list.rs  | 13 +++++++++++--
 src/serializer/state.rs |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 1e0e8de..ae1fd6f 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -28,7 +28,7 @@ impl<'a> Serializer<'a> {
             // Inside description details at top level: "-  " (no leading space)
             0
         } else {
-            self.options.leading_spaces.get()
+            self.options.leading_spaces.get().min(self.list_max_leading)
         }
     }
 
@@ -173,8 +173,16 @@ impl<'a> Serializer<'a> {
         let alternate = Self::follows_odd_run_of_lists(node, list_type);
         let old_marker_alternate = std::mem::replace(&mut self.list_marker_alternate, alternate);
 
-        let indent = self.list_indent_for(list_type);
+        // A list right after another must not reach the contents of its last item
+        let max_column = match node.previous_sibling() {
+            Some(previous) if matches!(previous.data.borrow().value, NodeValue::List(_)) => {
+                self.list_content_column.saturating_sub(1)
+            }
+            _ => usize::MAX,
+        };
+        let indent = self.list_indent_for(list_type).min(max_column);
         let old_list_indent = std::mem::replace(&mut self.list_indent, indent);
+        let old_max_leading = std::mem::replace(&mut self.list_max_leading, max_column - indent);
         self.list_on_marker_line = false;
 
         self.list_type = Some(list_type);
@@ -192,6 +200,7 @@ impl<'a> Serializer<'a> {
 
         self.list_depth -= 1;
         self.list_indent = old_list_indent;
+        self.list_max_leading = old_max_leading;
         self.list_type = old_list_type;
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 685d1d6..ec83dc4 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -279,6 +279,8 @@ pub struct Serializer<'a> {
     pub list_depth: usize,
     /// Indentation of the items of the current list
     pub list_indent: usize,
+    /// How many leading spaces the bullets of the current list may have.
+    pub list_max_leading: usize,
     /// Where the contents of the last list item written start.
     pub list_content_column: usize,
     /// Source of the parts of the document that are not formatted
@@ -333,6 +335,7 @@ impl<'a> Serializer<'a> {
             list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
+            list_max_leading: usize::MAX,
             list_content_column: 0,
             disabled_source: Vec::new(),
             in_description_details: false,
@@ -375,6 +378,7 @@ impl<'a> Serializer<'a> {
             list_on_marker_line: false,
             list_depth: 0,
             list_indent: 0,
+            list_max_leading: usize::MAX,
             list_content_column: 0,
             disabled_source: Vec::new(),
             in_description_details: false,
-- 
2.43.0


From 8ff7de18cd7e0846dd9c1278c3bbcc2c5f96a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 43/54] fix: line breaks in link titles; warnings look for a
 literal bracket where its text is

---
 src/serializer/document.rs | 25 +++++++++++++++++++++----
 src/serializer/escape.rs   | 10 ++++++++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b891e11..030b886 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -808,6 +808,7 @@ impl<'a> Serializer<'a> {
             NodeValue::Text(text) => {
                 // Look for [label] patterns in text content
                 let line_num = data.sourcepos.start.line;
+                let start = data.sourcepos.start.column.saturating_sub(1);
 
                 for caps in ref_pattern.captures_iter(text) {
                     let full_match = caps.get(0).unwrap();
@@ -852,7 +853,12 @@ impl<'a> Serializer<'a> {
                     }
 
                     // Check original source to see if this was escaped
-                    if Self::is_escaped_in_source(source_lines, line_num, full_match.as_str()) {
+                    if Self::is_escaped_in_source(
+                        source_lines,
+                        line_num,
+                        start,
+                        full_match.as_str(),
+                    ) {
                         continue;
                     }
 
@@ -886,8 +892,14 @@ impl<'a> Serializer<'a> {
     }
 
     /// Check if a bracket pattern was escaped in the original source.
-    /// Returns true if the pattern appears as `\[...]` in the source.
-    fn is_escaped_in_source(source_lines: &[&str], line_num: usize, pattern: &str) -> bool {
+    /// Returns true if the pattern appears as `\[...]` in the source, in the part of the line
+    /// from `start` (a byte offset) where it is there.
+    fn is_escaped_in_source(
+        source_lines: &[&str],
+        line_num: usize,
+        start: usize,
+        pattern: &str,
+    ) -> bool {
         if line_num == 0 || line_num > source_lines.len() {
             return false;
         }
@@ -895,7 +907,12 @@ impl<'a> Serializer<'a> {
         let line = source_lines[line_num - 1];
 
         // Look for the pattern in the line and check if it's preceded by backslash
-        if let Some(pos) = line.find(pattern)
+        let pos = line
+            .get(start..)
+            .and_then(|rest| rest.find(pattern))
+            .map(|pos| start + pos)
+            .or_else(|| line.find(pattern));
+        if let Some(pos) = pos
             && pos > 0
         {
             let bytes = line.as_bytes();
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 1d07fd8..37b9f54 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -155,9 +155,15 @@ pub fn push_link_target(output: &mut String, url: &str, title: &str) {
         output.push('>');
     }
     if !title.is_empty() {
+        // A line break in the title is like a space
+        let lines: Vec<&str> = title.split('\n').collect();
         output.push_str(" \"");
-        push_escaped(output, title, "\"");
-        output.push('"');
+        for (idx, line) in lines.iter().enumerate() {
+            let line = if idx > 0 { line.trim_start() } else { line };
+            let is_last = idx + 1 == lines.len();
+            push_escaped(output, if is_last { line } else { line.trim_end() }, "\"");
+            output.push(if is_last { '"' } else { ' ' });
+        }
     }
 }
 
-- 
2.43.0


From 56053d42911c40044de8f9af899529299c43c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 44/54] fix: the text of full references is prose

---
 src/serializer/inline.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 9188eda..b2841ce 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -100,7 +100,10 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Link(link) => {
                 // Handle reference-style links in headings
-                if let Some((link_text, label)) = self.get_reference_style_info(node) {
+                if let Some((mut link_text, label)) = self.get_reference_style_info(node) {
+                    if Self::is_full_reference(&link_text, &label) {
+                        link_text = self.collect_children_text(node);
+                    }
                     self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
                 } else if Self::is_autolink(&self.collect_raw_text(node), &link.url, &link.title) {
                     Self::format_autolink(text, &link.url);
@@ -143,6 +146,29 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether the text of a reference is something else than its label.
+    fn is_full_reference(text: &str, label: &str) -> bool {
+        text != label && !label.starts_with('\x01')
+    }
+
+    /// Collect the text of a link in a heading.
+    fn collect_children_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
+        let mut text = String::new();
+        for child in node.children() {
+            self.collect_text_recursive(child, &mut text);
+        }
+        text.replace('\n', " ")
+    }
+
+    /// Collect the text of a link in a paragraph.
+    fn collect_children_inline<'b>(&mut self, node: &'b AstNode<'b>) -> String {
+        let mut content = String::new();
+        for child in node.children() {
+            self.collect_inline_node(child, &mut content);
+        }
+        content.replace('\x00', " ")
+    }
+
     pub(super) fn collect_inline_content<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -284,6 +310,11 @@ impl<'a> Serializer<'a> {
                         );
                     } else {
                         // Non-badge reference links: use helper
+                        let text = if Self::is_full_reference(&text, &label) {
+                            self.collect_children_inline(node)
+                        } else {
+                            text
+                        };
                         self.format_reference_link(content, &text, &label, &link.url, &link.title);
                     }
                 } else if contains_image {
@@ -324,7 +355,10 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Image(image) => {
                 // Check if original was reference style
-                if let Some((text, label)) = self.get_reference_style_info(node) {
+                if let Some((mut text, label)) = self.get_reference_style_info(node) {
+                    if Self::is_full_reference(&text, &label) {
+                        text = self.collect_children_inline(node);
+                    }
                     self.format_reference_image(content, &text, &label, &image.url, &image.title);
                 } else {
                     // Inline style: collect alt text and use inline syntax
-- 
2.43.0


From f34d2619d7c01c308660fc4aa46753260f0b52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 45/54] fix: link targets with a title are not broken; hard
 breaks after rewrapped lines

---
 src/serializer/escape.rs | 30 ++++++++++++++++++++
 src/serializer/wrap.rs   | 60 ++++++++++++++++++++++++++--------------
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 37b9f54..338db31 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -167,6 +167,36 @@ pub fn push_link_target(output: &mut String, url: &str, title: &str) {
     }
 }
 
+/// Length of the link target with a title, in parentheses, that `text` starts with (0 if there
+/// is none).  The parser misplaces what follows one that holds a line break.
+pub fn link_target_len(text: &str) -> usize {
+    let Some(rest) = text.strip_prefix('(') else {
+        return 0;
+    };
+    // The first character that is not escaped and meets the condition
+    let find = |text: &str, is_end: fn(char) -> bool| {
+        let mut escaped = false;
+        text.find(|ch: char| {
+            let found = !escaped && is_end(ch);
+            escaped = !escaped && ch == '\\';
+            found
+        })
+    };
+    let url_end = if rest.starts_with('<') {
+        find(rest, |ch| ch == '>').map(|end| end + 1)
+    } else {
+        find(rest, |ch| ch == ' ')
+    };
+    let end = url_end.and_then(|url_end| {
+        let title = rest[url_end..].strip_prefix(" \"")?;
+        let title_end = find(title, |ch| ch == '"')?;
+        title[title_end..]
+            .starts_with("\")")
+            .then_some(url_end + title_end + 5)
+    });
+    end.unwrap_or(0)
+}
+
 /// Write text with a backslash before the given characters and with everything that would
 /// otherwise be read as an escape or an entity kept literal.
 pub fn push_escaped(output: &mut String, text: &str, special: &str) {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 14edc06..2a72c01 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -78,15 +78,12 @@ pub fn ends_with_backslash_break(segment: &str) -> bool {
     (segment.len() - text.len()) % 2 == 1 && text.ends_with(['*', '_', '~'])
 }
 
-/// The end of a hard-broken segment: two trailing spaces, or a backslash where the spaces
-/// would be alone on their line or follow what would then be a block marker.
-fn hard_break(segment: &str) -> &'static str {
+/// The end of a hard-broken segment with this last line: two trailing spaces, or a backslash
+/// where the spaces would be alone on their line or follow what would then be a block marker.
+fn hard_break(segment: &str, last_line: &str) -> &'static str {
     if ends_with_backslash_break(segment) {
-        return "\n";
-    }
-    let lines = split_soft_breaks(segment);
-    let last_line = lines.last().map_or("", |line| line.trim());
-    if last_line.is_empty() || starts_other_block(last_line) {
+        "\n"
+    } else if last_line.is_empty() || starts_other_block(last_line) {
         "\\\n"
     } else {
         "  \n"
@@ -114,14 +111,25 @@ fn escape_after_hard_breaks(text: &str) -> Cow<'_, str> {
     result.into()
 }
 
-/// Add a wrapped segment that ends with a hard break, or the whole prefix where the segment is
-/// empty: the mark of the break follows it on the same line.
-fn push_segment(result: &mut String, wrapped: &str, segment: &str, prefix: &str) {
+/// Add a wrapped segment, or the whole prefix where the segment is empty: the mark of the break
+/// follows it on the same line.  Returns its last line without the prefix.
+fn push_segment<'s>(
+    result: &mut String,
+    wrapped: &'s str,
+    segment: &str,
+    first_prefix: &str,
+    continuation_prefix: &str,
+) -> &'s str {
     if segment.trim().is_empty() {
-        result.push_str(prefix);
-    } else {
-        result.push_str(wrapped);
+        result.push_str(first_prefix);
+        return "";
     }
+    result.push_str(wrapped);
+    let (prefix, last_line) = match wrapped.rsplit_once('\n') {
+        Some((_, last_line)) => (continuation_prefix, last_line),
+        None => (first_prefix, wrapped),
+    };
+    last_line.strip_prefix(prefix).unwrap_or_default().trim()
 }
 
 /// Wrap text at the specified line width.
@@ -145,15 +153,16 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 
     // Process each segment separated by hard line breaks
     let mut result = String::new();
+    let mut last_line = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
             // Mark the hard line break, then newline and prefix
-            result.push_str(hard_break(hard_break_segments[idx - 1]));
+            result.push_str(hard_break(hard_break_segments[idx - 1], &last_line));
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
         let wrapped = wrap_text_segment(segment, prefix, line_width);
-        push_segment(&mut result, &wrapped, segment, prefix);
+        last_line = push_segment(&mut result, &wrapped, segment, prefix, prefix).to_string();
     }
 
     result
@@ -236,11 +245,12 @@ pub fn wrap_text_first_line(
 
     // Process each segment separated by hard line breaks
     let mut result = String::new();
+    let mut last_line = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         let is_first_segment = idx == 0;
         if !is_first_segment {
             // Mark the hard line break, then newline
-            result.push_str(hard_break(hard_break_segments[idx - 1]));
+            result.push_str(hard_break(hard_break_segments[idx - 1], &last_line));
         }
         let current_first = if is_first_segment {
             first_prefix
@@ -249,7 +259,14 @@ pub fn wrap_text_first_line(
         };
         let wrapped =
             wrap_text_first_line_segment(segment, current_first, continuation_prefix, line_width);
-        push_segment(&mut result, &wrapped, segment, current_first);
+        last_line = push_segment(
+            &mut result,
+            &wrapped,
+            segment,
+            current_first,
+            continuation_prefix,
+        )
+        .to_string();
     }
 
     result
@@ -408,7 +425,7 @@ pub fn wrap_single_segment(
 }
 
 /// Length of what `text` starts with and no line break may divide: a code span, bracketed
-/// content, an escape, or a single character.
+/// content with the link target after it, an escape, or a single character.
 fn unbreakable_len(text: &str, first: char) -> usize {
     match first {
         '\\' => {
@@ -421,7 +438,10 @@ fn unbreakable_len(text: &str, first: char) -> usize {
             let run = text.len() - text.trim_start_matches('`').len();
             run + escape::code_span_len(&text[run..], run)
         }
-        '[' => escape::find_closing_bracket(&text[1..]).map_or(1, |end| end + 2),
+        '[' => escape::find_closing_bracket(&text[1..]).map_or(1, |end| {
+            let len = end + 2;
+            len + escape::link_target_len(&text[len..])
+        }),
         _ => first.len_utf8(),
     }
 }
-- 
2.43.0


From 5080aee49aefe89b217041e80ce63fb3b90a0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 46/54] fix: full references before brackets; footnotes only
 unused definitions refer to

---
 src/serializer/document.rs | 53 +++++++++++++++++++++++++++++++++++++-
 src/serializer/mod.rs      |  6 ++++-
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 030b886..db8320b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -19,7 +19,7 @@ impl<'a> Serializer<'a> {
         for definition in definitions {
             node.append(definition);
         }
-        let children: Vec<_> = node.children().collect();
+        let mut children: Vec<_> = node.children().collect();
 
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
@@ -31,6 +31,11 @@ impl<'a> Serializer<'a> {
             .filter_map(|region| self.source_of_lines(region.start_line, region.end_line))
             .collect();
 
+        if regions.is_empty() {
+            Self::detach_unused_footnotes(node);
+            children = node.children().collect();
+        }
+
         // First pass: collect all footnote reference lines
         // This is needed because FootnoteDefinition nodes come at the end of the AST,
         // but we need to know reference lines before flushing at section boundaries
@@ -671,6 +676,52 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
     }
 
+    /// Remove the footnote definitions that are not output: those whose name an earlier one
+    /// has, and those that only such definitions refer to.
+    fn detach_unused_footnotes<'b>(root: &'b AstNode<'b>) {
+        let name_of = |node: &'b AstNode<'b>| match &node.data.borrow().value {
+            NodeValue::FootnoteDefinition(definition) => Some(definition.name.clone()),
+            _ => None,
+        };
+        let references = |node: &'b AstNode<'b>| -> Vec<String> {
+            node.descendants()
+                .filter_map(|n| match &n.data.borrow().value {
+                    NodeValue::FootnoteReference(reference) => Some(reference.name.to_lowercase()),
+                    _ => None,
+                })
+                .collect()
+        };
+        let mut names = std::collections::HashSet::new();
+        let (definitions, others): (Vec<_>, Vec<_>) =
+            root.children().partition(|child| name_of(child).is_some());
+        let mut unused: Vec<_> = Vec::new();
+        let mut definitions: Vec<_> = definitions
+            .into_iter()
+            .filter_map(|definition| {
+                let name = name_of(definition)?;
+                if names.insert(name.clone()) {
+                    Some((name.to_lowercase(), definition))
+                } else {
+                    unused.push(definition);
+                    None
+                }
+            })
+            .collect();
+        let mut used: Vec<String> = others.into_iter().flat_map(references).collect();
+        while let Some(name) = used.pop() {
+            definitions.retain(|(defined, definition)| {
+                if *defined == name {
+                    used.extend(references(definition));
+                }
+                *defined != name
+            });
+        }
+        unused.extend(definitions.into_iter().map(|(_, definition)| definition));
+        for definition in unused {
+            definition.detach();
+        }
+    }
+
     /// Recursively collect footnote reference lines from the AST.
     /// This must be called before processing the document to ensure
     /// footnote reference lines are populated for all footnotes.
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0dfbcee..91e4ec9 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -126,7 +126,11 @@ impl<'a> Serializer<'a> {
 
                 // If label is empty, it's collapsed reference - mark with special prefix
                 // to distinguish from shortcut reference
-                let final_label = if label.is_empty() {
+                // (a full one that has its text for a label also becomes one where it could
+                // not be a shortcut)
+                let final_label = if label.is_empty()
+                    || (label == text && Self::next_sibling_starts_with_bracket(node))
+                {
                     format!("\x01{}", text) // Use \x01 as marker for collapsed reference
                 } else {
                     label
-- 
2.43.0


From 2ca4c3ee6dcc49dc7377177247652f5b2488c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 47/54] fix: blank line between the list in an item and a block
 before it that is no paragraph

---
 src/serializer/list.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index ae1fd6f..822ed24 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -152,7 +152,9 @@ impl<'a> Serializer<'a> {
         item.children()
             .skip(1)
             .any(|child| match child.data.borrow().value {
-                NodeValue::List(_) => child.previous_sibling().is_some_and(ends_with_newline),
+                NodeValue::List(_) => child.previous_sibling().is_some_and(|previous| {
+                    !matches!(previous.data.borrow().value, NodeValue::Paragraph)
+                }),
                 _ => true,
             })
     }
@@ -287,8 +289,10 @@ impl<'a> Serializer<'a> {
                     if !follows_block {
                         self.output.push('\n');
                     }
-                    if has_blank_line_before || follows_block {
-                        // Blank line to separate from preceding paragraph
+                    let follows_text = i > 0
+                        && matches!(&children[i - 1].data.borrow().value, NodeValue::Paragraph);
+                    if has_blank_line_before || (!is_first && !follows_text) {
+                        // Blank line to separate from preceding block
                         self.push_blank_line();
                     }
                     self.list_on_marker_line = is_first;
-- 
2.43.0


From 568cb72f830712f315b18e603f09630e341f3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 48/54] fix: abbreviation definitions in quotes and lists;
 numbers of ten digits; literal colons at the start of terms

---
 src/serializer/document.rs | 94 +++++++++++++++++++++++++++++---------
 src/serializer/inline.rs   | 17 ++++++-
 src/serializer/list.rs     |  5 +-
 3 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index db8320b..93c4b40 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -297,6 +297,22 @@ impl<'a> Serializer<'a> {
         regions
     }
 
+    /// Note the references that a part of the document output as it is needs.
+    fn add_references_of<'b>(&mut self, root: &'b AstNode<'b>) {
+        for node in root.descendants() {
+            let (url, title) = match &node.data.borrow().value {
+                NodeValue::Link(link) | NodeValue::Image(link) => {
+                    (link.url.clone(), link.title.clone())
+                }
+                _ => continue,
+            };
+            if let Some((_, label)) = self.get_reference_style_info(node) {
+                let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                self.add_reference(label, url, title);
+            }
+        }
+    }
+
     /// Output a disabled region as it is in the source.
     fn output_disabled_region<'b>(
         &mut self,
@@ -305,18 +321,7 @@ impl<'a> Serializer<'a> {
     ) {
         // Definitions elsewhere that the region uses are still needed
         for child in &children[region.first_child..region.next_child] {
-            for node in child.descendants() {
-                let (url, title) = match &node.data.borrow().value {
-                    NodeValue::Link(link) | NodeValue::Image(link) => {
-                        (link.url.clone(), link.title.clone())
-                    }
-                    _ => continue,
-                };
-                if let Some((_, label)) = self.get_reference_style_info(node) {
-                    let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
-                    self.add_reference(label, url, title);
-                }
-            }
+            self.add_references_of(child);
         }
 
         let Some(source) = self.source_of_lines(region.start_line, region.end_line) else {
@@ -623,15 +628,11 @@ impl<'a> Serializer<'a> {
     }
 
     pub(super) fn serialize_paragraph<'b>(&mut self, node: &'b AstNode<'b>) {
-        // Check if this is a PHP Markdown Extra abbreviation definition (*[abbr]: ...)
-        // These are not parsed by comrak, so we preserve them as-is
-        if let Some(source) = self.extract_source(node) {
-            let trimmed = source.trim();
-            if trimmed.starts_with("*[") && trimmed.contains("]:") {
-                self.output.push_str(trimmed);
-                self.output.push('\n');
-                return;
-            }
+        // PHP Markdown Extra abbreviation definitions (*[abbr]: ...) are not parsed by comrak,
+        // so they are preserved as-is
+        if let Some(source) = self.abbreviation_source(node) {
+            self.serialize_abbreviations(node, &source);
+            return;
         }
 
         // Collect all inline content first
@@ -669,6 +670,57 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// The source of a paragraph that starts with an abbreviation definition.
+    fn abbreviation_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let parent = node.parent()?;
+        if matches!(
+            parent.data.borrow().value,
+            NodeValue::DescriptionTerm | NodeValue::DescriptionDetails
+        ) {
+            return None;
+        }
+        let source = self.extract_source(node)?;
+        let source = source.trim();
+        let (name, rest) = source.strip_prefix("*[")?.split_once(']')?;
+        (!name.is_empty() && !name.contains('\n') && rest.starts_with(':'))
+            .then(|| source.to_string())
+    }
+
+    /// Output abbreviation definitions as they are in the source.
+    fn serialize_abbreviations<'b>(&mut self, node: &'b AstNode<'b>, source: &str) {
+        // What they refer to is still needed
+        self.add_references_of(node);
+
+        let in_list = self.list_type.is_some();
+        let prefix = self.quote_line_prefix();
+        let indent = if in_list {
+            format!("{prefix}{}", self.list_item_indent)
+        } else {
+            prefix
+        };
+        for (i, line) in source.split('\n').enumerate() {
+            if i == 0 {
+                if !in_list {
+                    self.output.push_str(&indent);
+                }
+                self.output.push_str(line);
+            } else {
+                self.output.push('\n');
+                if indent.is_empty() {
+                    self.output.push_str(line);
+                } else {
+                    // A line of a paragraph does not start with the marker of a block quote
+                    self.output.push_str(&indent);
+                    self.output
+                        .push_str(line.trim_start_matches(|c: char| c.is_whitespace() || c == '>'));
+                }
+            }
+        }
+        if !in_list {
+            self.output.push('\n');
+        }
+    }
+
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
         // Front matter content from comrak includes the delimiters,
         // so we preserve it verbatim; a blank line separates it from a block that follows
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index b2841ce..2e80567 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -195,8 +195,7 @@ impl<'a> Serializer<'a> {
         };
         match word {
             "-" | "+" | "*" => Some(0),
-            ":" | "~" => node
-                .previous_sibling()
+            ":" | "~" => Self::block_before(node)
                 .is_some_and(|previous| {
                     matches!(
                         previous.data.borrow().value,
@@ -211,6 +210,20 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// What precedes a paragraph, which may be the term of a description list.
+    fn block_before<'b>(node: &'b AstNode<'b>) -> Option<&'b AstNode<'b>> {
+        let parent = node.parent()?;
+        if !matches!(parent.data.borrow().value, NodeValue::DescriptionTerm) {
+            return node.previous_sibling();
+        }
+        let item = parent.parent()?;
+        if item.previous_sibling().is_some() {
+            item.parent()
+        } else {
+            item.parent()?.previous_sibling()
+        }
+    }
+
     pub(super) fn collect_inline_node<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String) {
         match &node.data.borrow().value {
             NodeValue::Text(text) => {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 822ed24..c87e6d8 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -78,7 +78,10 @@ impl<'a> Serializer<'a> {
                     _ if self.list_marker_alternate => '.',
                     marker => marker.as_char(),
                 };
-                let number = (self.ordered_list_start + self.list_item_index - 1).to_string();
+                // A marker has nine digits at most
+                let number = (self.ordered_list_start + self.list_item_index - 1)
+                    .min(999_999_999)
+                    .to_string();
 
                 // Calculate trailing spaces to maintain fixed marker width
                 // marker_width = number + marker_char + trailing
-- 
2.43.0


From 4f12162d4b47b9e2917ba0f56c93ba5a33b62e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 49/54] fix: markers of block quotes are no part of labels;
 references are where the parser says or not references

---
 src/serializer/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 91e4ec9..2ed17c4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -86,7 +86,19 @@ impl<'a> Serializer<'a> {
     /// Returns Some((text, label)) if reference style, None if inline style.
     /// The returned text has newlines normalized to spaces for consistent output.
     fn get_reference_style_info<'b>(&self, node: &'b AstNode<'b>) -> Option<(String, String)> {
-        let source = self.extract_source(node)?;
+        let mut source = self.extract_source(node)?;
+        let in_quote = |n: &'b AstNode<'b>| {
+            let value = &n.data.borrow().value;
+            matches!(value, NodeValue::BlockQuote | NodeValue::Alert(_))
+        };
+        if source.contains('\n') && node.ancestors().any(in_quote) {
+            // The markers of block quotes are no part of the text
+            source = source
+                .split('\n')
+                .map(|line| line.trim_start_matches([' ', '\t', '>']))
+                .collect::<Vec<_>>()
+                .join("\n");
+        }
 
         // Reference style patterns:
         // [text][label] or ![text][label] - full reference
@@ -100,7 +112,13 @@ impl<'a> Serializer<'a> {
         // [![alt][img-ref]][link-ref]
 
         // Remove leading ! for images
-        let source = source.strip_prefix('!').unwrap_or(&source);
+        let is_image = matches!(node.data.borrow().value, NodeValue::Image(_));
+        let source = match source.strip_prefix('!') {
+            Some(source) if is_image => source,
+            None if !is_image => &source,
+            // Not where the parser says
+            _ => return None,
+        };
 
         // Find the bracket closing the text/content part (not there for an autolink)
         let rest = source.strip_prefix('[')?;
@@ -151,7 +169,9 @@ impl<'a> Serializer<'a> {
         }
 
         // Shortcut reference: just [text] with nothing following
-        // or followed by something that's not ( or [
+        if !after_close.is_empty() {
+            return None;
+        }
         Some((text.clone(), text))
     }
 
-- 
2.43.0


From 7e27834e875fb90dbf453b80f90b4de0a2508aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 50/54] fix: exclamation marks before links when the parser
 misplaces them

---
 src/serializer/inline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 2e80567..8fc6b3c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -509,7 +509,18 @@ impl<'a> Serializer<'a> {
         // If the source is not that of the text (the parser misplaces what follows a line break
         // in a link target), keep everything literal
         if text_idx < text_chars.len() {
-            return escape::escape_literal(text);
+            result = escape::escape_literal(text);
+        }
+
+        // An exclamation mark would turn the link after it into an image
+        if result.ends_with('!') && !result.ends_with("\\!") {
+            let next_is_link = node.next_sibling().is_some_and(|next| {
+                matches!(&next.data.borrow().value, NodeValue::Link(link)
+                    if !Self::is_autolink(&self.collect_raw_text(next), &link.url, &link.title))
+            });
+            if next_is_link {
+                result.insert(result.len() - 1, '\\');
+            }
         }
 
         result
-- 
2.43.0


From d62f60ee1571e335e913be58790de93188bf1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 51/54] fix: hard breaks in what could be a tag; double spaces
 where text is wrapped

---
 src/serializer/inline.rs |  2 +-
 src/serializer/wrap.rs   | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 8fc6b3c..d70d86c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -248,7 +248,7 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::LineBreak => {
                 // What a delimiter means depends on whether a space or a backslash follows
-                if content.ends_with(['*', '_', '~']) {
+                if wrap::needs_backslash_break(content) {
                     if self
                         .extract_source(node)
                         .is_some_and(|source| source.starts_with('\\'))
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 2a72c01..a74ecdf 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -71,11 +71,21 @@ pub fn starts_other_block(text: &str) -> bool {
         || (text.starts_with('<') && text.trim_end().ends_with('>'))
 }
 
-/// Whether a hard-broken segment has the backslash of its break already: where it follows what
-/// may be a delimiter, and is not escaped.
+/// Whether what this text ends with may mean something else before a space than before a
+/// backslash: a delimiter, or the beginning of what could be an HTML tag.
+pub fn needs_backslash_break(text: &str) -> bool {
+    text.ends_with(['*', '_', '~'])
+        || text.rsplit_once('<').is_some_and(|(_, tag)| {
+            tag.starts_with(|c: char| c.is_ascii_alphabetic() || "/!?".contains(c))
+                && !tag.contains('>')
+        })
+}
+
+/// Whether a hard-broken segment has the backslash of its break already: where it needs one,
+/// and is not escaped.
 pub fn ends_with_backslash_break(segment: &str) -> bool {
     let text = segment.trim_end_matches('\\');
-    (segment.len() - text.len()) % 2 == 1 && text.ends_with(['*', '_', '~'])
+    (segment.len() - text.len()) % 2 == 1 && needs_backslash_break(text)
 }
 
 /// The end of a hard-broken segment with this last line: two trailing spaces, or a backslash
@@ -458,7 +468,9 @@ fn add_token_to_line_with_prefix(
     is_first_line: &mut bool,
 ) {
     let token_width = token.width();
-    let spaces_len = trailing_spaces.len();
+    // More than one space is kept only where there is room: the others are lost at the end of
+    // a line, which must not matter when the text is wrapped again
+    let spaces_len = trailing_spaces.len().min(1);
     let current_prefix_width = if *is_first_line {
         first_prefix_width
     } else {
@@ -473,6 +485,13 @@ fn add_token_to_line_with_prefix(
         // Token fits on current line
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
+    } else if current_line.trim_end_matches(' ').width() + 1 + token_width + spaces_len
+        <= line_width
+    {
+        // Token fits after a single space
+        current_line.truncate(current_line.trim_end_matches(' ').len() + 1);
+        current_line.push_str(token);
+        current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
         let trimmed = current_line.trim_end();
-- 
2.43.0


From 8de1962361fe660d3599f60df5969b2718ad3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 52/54] fix: which quotation marks of a heading are curly is up
 to the punctuation options

---
 src/serializer/document.rs |  3 ++-
 src/serializer/heading.rs  | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 93c4b40..a6f4ae9 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -564,8 +564,9 @@ impl<'a> Serializer<'a> {
             let mut common_nouns = self.options.heading_common_nouns.clone();
             common_nouns.extend(self.directive_common_nouns.clone());
 
-            heading_text =
+            let cased =
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
+            heading_text = super::heading::restore_quotes(&heading_text, &cased);
         }
 
         // Inside a block quote every line needs the quote prefix
diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 008d0d2..defe427 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -59,6 +59,27 @@ pub fn to_sentence_case(
     result
 }
 
+/// Give the quotation marks of a heading back the form they had before sentence case was applied:
+/// which of them become curly is up to the punctuation options.
+pub(super) fn restore_quotes(original: &str, cased: &str) -> String {
+    let is_quote =
+        |c: &char| matches!(c, '"' | '\'' | '\u{2018}'..='\u{2019}' | '\u{201C}'..='\u{201D}');
+    if original.chars().filter(is_quote).count() != cased.chars().filter(is_quote).count() {
+        return cased.to_string();
+    }
+    let mut quotes = original.chars().filter(is_quote);
+    cased
+        .chars()
+        .map(|c| {
+            if is_quote(&c) {
+                quotes.next().unwrap_or(c)
+            } else {
+                c
+            }
+        })
+        .collect()
+}
+
 /// Token types for parsing heading text.
 #[derive(Debug, PartialEq)]
 enum Token {
-- 
2.43.0


From 42f7032b628e20c5d10aebfbcffd0dc08d29cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 53/54] fix: the definition of a reference in a heading follows
 the letter case of the heading

---
 src/serializer/document.rs |  1 +
 src/serializer/state.rs    | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a6f4ae9..51460f2 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -567,6 +567,7 @@ impl<'a> Serializer<'a> {
             let cased =
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
             heading_text = super::heading::restore_quotes(&heading_text, &cased);
+            self.recase_pending_references(&heading_text);
         }
 
         // Inside a block quote every line needs the quote prefix
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index ec83dc4..329a193 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -570,6 +570,27 @@ impl<'a> Serializer<'a> {
         true
     }
 
+    /// Definitions are labelled as their references are, so those a heading refers to follow the
+    /// letter case of its text.
+    pub fn recase_pending_references(&mut self, heading_text: &str) {
+        let in_footnotes = self.footnotes.pending_references.values_mut();
+        let references = self
+            .pending_references
+            .values_mut()
+            .chain(in_footnotes.map(|(reference, _)| reference));
+        for reference in references {
+            let normalized = normalize_label(&reference.label);
+            let cased = heading_text
+                .split('[')
+                .skip(1)
+                .filter_map(|rest| rest.split(']').next())
+                .find(|label| normalize_label(label) == normalized);
+            if let Some(label) = cased {
+                reference.label = label.to_string();
+            }
+        }
+    }
+
     /// Check if a URL is external (starts with http:// or https://).
     pub fn is_external_url(url: &str) -> bool {
         url.starts_with("http://") || url.starts_with("https://")
-- 
2.43.0


From 1070d57a17bbac2e47c407b6f1603cb765f0e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 54/54] fix: curly quotation marks must not turn text into a
 tag

---
 src/serializer/heading.rs |  4 ++++
 src/serializer/inline.rs  | 30 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index defe427..0346ba1 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -288,6 +288,10 @@ fn raw_markup_len(before: &str, rest: &str) -> Option<usize> {
     let bytes = rest.as_bytes();
     match bytes.first()? {
         b'<' => {
+            let backslashes = before.len() - before.trim_end_matches('\\').len();
+            if backslashes % 2 == 1 {
+                return None;
+            }
             let next = *bytes.get(1)?;
             if let Some(comment) = rest.strip_prefix("<!--") {
                 return comment.find("-->").map(|end| end + 7);
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index d70d86c..fafc3ff 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -494,6 +494,8 @@ impl<'a> Serializer<'a> {
                 // Characters match - apply normal escaping rules
                 if keep_delimiters && matches!(text_char, '*' | '_') {
                     result.push(text_char);
+                } else if text_char == '<' && self.becomes_tag(node, &text_chars[text_idx + 1..]) {
+                    result.push_str("\\<");
                 } else {
                     result.push_str(&escape::escape_text(&text_char.to_string()));
                 }
@@ -526,6 +528,34 @@ impl<'a> Serializer<'a> {
         result
     }
 
+    /// Whether the text after a `<` could be read as a tag only because its quotation marks have
+    /// become curly: unlike straight ones, those may be part of an unquoted attribute value.
+    fn becomes_tag<'b>(&self, node: &'b AstNode<'b>, rest: &[char]) -> bool {
+        let mut rest: String = rest.iter().collect();
+        let mut next = node.next_sibling();
+        while let Some(sibling) = next {
+            match &sibling.data.borrow().value {
+                NodeValue::Text(text) => {
+                    rest.push_str(&punctuation::transform_punctuation(text, self.options));
+                }
+                NodeValue::SoftBreak => rest.push(' '),
+                _ => break,
+            }
+            next = sibling.next_sibling();
+        }
+        let attributes = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '-');
+        let is_curly = |c| matches!(c, '\u{2018}'..='\u{2019}' | '\u{201C}'..='\u{201D}');
+        rest.starts_with(|c: char| c.is_ascii_alphabetic())
+            && attributes.starts_with(char::is_whitespace)
+            && attributes.split('=').skip(1).any(|value| {
+                value
+                    .trim_start()
+                    .split(|c: char| c.is_whitespace() || c == '>')
+                    .next()
+                    .is_some_and(|value| value.contains(is_curly))
+            })
+    }
+
     /// Length of the source text that a typographic character produced by the
     /// punctuation transformation stands for, if `source` starts with it.
     fn punctuation_source_len(&self, ch: char, source: &[char]) -> Option<usize> {
-- 
2.43.0

