From 3150fd1557852b73d1e5352bc1935f2ac67b53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 01/65] fix: don't drop text that ends with '#' from ATX
 headers with a closing sequence

---
 src/header.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..4a0c4fb 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -12,6 +12,9 @@ pub(super) struct Header<'i> {
     indentation: Vec<Cow<'static, str>>,
     kind: HeaderKind<'i>,
     attrs_on_own_line: bool,
+    /// Did the parser remove an optional closing sequence from this ATX header?
+    /// If so, any trailing `#` that are left over are part of the header's text.
+    has_closing_sequence: bool,
     id: Option<CowStr<'i>>,
     classes: Vec<CowStr<'i>>,
     attrs: Vec<(CowStr<'i>, Option<CowStr<'i>>)>,
@@ -97,6 +100,12 @@ impl<'i> Header<'i> {
             .map(|l| l.trim_start_matches(|c: char| c.is_whitespace() || c == '>'))
             .any(|l| l.starts_with('{'));
 
+        let has_closing_sequence = full_header
+            .trim_start_matches('#')
+            .trim_end_matches('#')
+            .trim_end()
+            .ends_with('#');
+
         let kind = match (level, header_marker) {
             (HeadingLevel::H1, Some(marker)) => HeaderKind::SetextH1(marker),
             (HeadingLevel::H2, Some(marker)) => HeaderKind::SetextH2(marker),
@@ -108,6 +117,7 @@ impl<'i> Header<'i> {
             indentation,
             kind,
             attrs_on_own_line,
+            has_closing_sequence,
             id,
             classes,
             attrs,
@@ -159,6 +169,11 @@ impl<'i> Header<'i> {
             return;
         }
 
+        if self.has_closing_sequence {
+            self.escape_trailing_hashtag();
+            return;
+        }
+
         while self
             .buffer
             .ends_with(|c: char| c.is_whitespace() || c == '#')
-- 
2.43.0


From 57f79331c0be17c6acd7a55073b8c3650dfc92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 02/65] fix: only write newlines before a thematic break when
 they're needed

---
 src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..016a05f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -783,8 +783,10 @@ where
                 Event::Rule => {
                     let reference_definition_range = self.last_position..range.start;
                     self.rewrite_reference_link_definitions(&reference_definition_range)?;
-                    let newlines = self.count_newlines(&range);
-                    self.write_newlines(newlines)?;
+                    if self.needs_indent {
+                        let newlines = self.count_newlines(&range);
+                        self.write_newlines(newlines)?;
+                    }
                     self.write_event_str(&event, self.input[range].trim_end())?;
                     self.check_needs_indent(&event)
                 }
-- 
2.43.0


From 6029a6389fa89052837492a54e7b25bb91daf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 03/65] fix: don't lose content that follows empty list items
 or items that end with a block

---
 src/adapters/loose_list.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..1e07518 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -227,6 +227,9 @@ where
                     }
                 }
                 Event::End(TagEnd::Item) => {
+                    // Every `Start(Item)` pushes onto the stack, so we need to pop here regardless
+                    // of how the item ended. Any synthetic paragraph was already closed.
+                    self.loose_list_stack.pop();
                     self.stashed_events
                         .push_back((current_event, current_range));
 
@@ -266,15 +269,9 @@ where
                     // Match on events that could interrupt a paragraph, and if we're currently
                     // converting a "tight" list to a "loose" list, then push an `End(Paragraph)`
                     match self.inner.peek() {
-                        Some((Event::End(TagEnd::Item), _)) => {
-                            // NOTE that we pop off of the loose_list_stack instead of peeking at
-                            // it like we do in the other arms
-                            if let Some(Some(index)) = self.loose_list_stack.pop() {
-                                push_end_paragraph!(index, self.stashed_events, current_range.end)
-                            }
-                        }
                         Some((
-                            Event::Start(
+                            Event::End(TagEnd::Item)
+                            | Event::Start(
                                 Tag::Heading { .. }
                                 | Tag::List(_)
                                 | Tag::BlockQuote(_)
-- 
2.43.0


From 1578ec368459baf6b750c0e4aa0f6178c833d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 04/65] fix: don't drop HTML block lines inside of list items

---
 src/adapters/loose_list.rs | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 1e07518..124331c 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -135,20 +135,11 @@ where
                 | Tag::Strong
                 | Tag::Strikethrough,
             ) => true,
-            Event::Html(text) => is_single_html_tag(text),
             _ => false,
         }
     }
 }
 
-/// Check if the HTML content is a single tag. For example, `<{tag}>` or `</{tag}>`.
-fn is_single_html_tag(html: &str) -> bool {
-    // A hacky way to figure out if this is an inline html tag, but I think it works!
-    html.starts_with('<')
-        && html.ends_with('>')
-        && html.bytes().filter(|b| matches!(b, b'<' | b'>')).count() == 2
-}
-
 macro_rules! push_end_paragraph {
     ($index:expr, $stashed_events:expr, $end:expr) => {
         if let Some((paragraph, paragraph_range)) = $stashed_events.get_mut($index) {
@@ -253,11 +244,6 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
-                    self.stashed_events
-                        .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
-                }
                 _ => {
                     self.stashed_events
                         .push_back((current_event, current_range.clone()));
@@ -288,13 +274,6 @@ where
                                 push_end_paragraph!(index, self.stashed_events, current_range.end)
                             }
                         }
-                        Some((Event::Html(ref html), _)) if !is_single_html_tag(html) => {
-                            if let Some(Some(index)) =
-                                self.loose_list_stack.last_mut().map(|i| i.take())
-                            {
-                                push_end_paragraph!(index, self.stashed_events, current_range.end)
-                            }
-                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From a8778e731d818b90e0346c36cd412821195d7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 05/65] fix: treat thematic breaks as blocks that interrupt
 paragraphs in tight list items

---
 src/adapters/loose_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 124331c..3bf6dfb 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -231,7 +231,8 @@ where
                         return self.stashed_events.pop_front();
                     }
                 }
-                Event::End(
+                Event::Rule
+                | Event::End(
                     TagEnd::Heading(..)
                     | TagEnd::List(_)
                     | TagEnd::BlockQuote(..)
@@ -256,7 +257,8 @@ where
                     // converting a "tight" list to a "loose" list, then push an `End(Paragraph)`
                     match self.inner.peek() {
                         Some((
-                            Event::End(TagEnd::Item)
+                            Event::Rule
+                            | Event::End(TagEnd::Item)
                             | Event::Start(
                                 Tag::Heading { .. }
                                 | Tag::List(_)
-- 
2.43.0


From 623f81e4b3830b3072b59cbe38a835fcbe0cd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 06/65] fix: handle escaped backslashes when looking for link
 labels and titles

---
 src/links.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..34bead0 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -179,7 +179,7 @@ fn find_text_within_last_set_of_balance_bracket(
                 }
             }
         }
-        was_last_escape = byte == b'\\'
+        was_last_escape = is_char_esacped(byte as char, was_last_escape);
     }
     (start, end + 1)
 }
@@ -210,6 +210,12 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
     split_inline_url_from_title(inline_url, inline_url.ends_with(['"', '\'', ')']))
 }
 
+/// Check if the byte that comes right after the snippet is escaped
+fn ends_on_escape(snippet: &[u8]) -> bool {
+    let backslashes = snippet.iter().rev().take_while(|b| **b == b'\\').count();
+    backslashes % 2 == 1
+}
+
 // The link must have a title if we're calling this
 fn link_title_start(link: &[u8]) -> usize {
     let last = *link.last().expect("links titles must have quotes");
@@ -218,7 +224,7 @@ fn link_title_start(link: &[u8]) -> usize {
     // offset by 2 to skip triling quote
     let mut index = link.len().saturating_sub(2);
     while index.saturating_sub(1) != 0 {
-        if link[index] == opener && link[index - 1] != b'\\' {
+        if link[index] == opener && !ends_on_escape(&link[..index]) {
             return index;
         }
         index -= 1;
-- 
2.43.0


From 518e841947adcd3581eed25d663f6ffe30e4a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 07/65] fix: preserve whitespace inside bracketed inline link
 destinations

---
 src/links.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 34bead0..ad27bde 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -104,7 +104,8 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
+    } else if !(url.starts_with('<') && url.ends_with('>'))
+        && url.contains(|c: char| c == ' ' || c.is_ascii_control())
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
@@ -237,7 +238,7 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        &url[1..url.len() - 1]
     } else {
         url.trim()
     }
-- 
2.43.0


From 3f46b378525462f79bdbcf0db5d9231d064793c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 08/65] fix: keep empty inline link destinations when the link
 has a title

---
 src/links.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index ad27bde..66f54db 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -91,7 +91,8 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        // The destination can only be omitted if there isn't a title
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
-- 
2.43.0


From e6eb2465e53ee665ac080fe66e410521ae528214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 09/65] fix: don't panic when a link reference definition ends
 with a multibyte character

---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 66f54db..f8d6088 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -702,7 +702,7 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
+                    let url = Cow::from(&input[idx..idx + c.len_utf8()]);
                     builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
                     parsed_until = idx;
                     break;
@@ -736,7 +736,7 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
+                                let url = Cow::from(&input[start..idx + c.len_utf8()]);
                                 builder.set_url(LinkDestination::Regular(url), start..idx, offset);
                                 parsed_until = idx;
                                 break;
-- 
2.43.0


From 71c2fba4f69d9057ed4b75643d6cc3c6261f2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 10/65] fix: recover link reference definitions when a label
 line starts with an escape

---
 src/links.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/links.rs b/src/links.rs
index f8d6088..fdbb740 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -671,6 +671,8 @@ fn parse_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                // The first character on the new line might be an escape
+                is_escaped = is_char_esacped(c, false);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
-- 
2.43.0


From 1253be43c44921d79f351d8b426795fbbfd40d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 11/65] fix: preserve hard breaks and leading markup when
 reflowing text

---
 src/paragraph.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..b5fcce3 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -141,14 +141,7 @@ impl WriteContext<'_> for Paragraph {
 
 impl Write for Paragraph {
     fn write_str(&mut self, s: &str) -> std::fmt::Result {
-        if self.max_width.is_some() && self.should_reflow_text && s.trim().is_empty() {
-            // If the user configured the max_width and the reflow text option
-            // then push a space so we can reflow text
-            self.buffer.push(' ');
-        } else {
-            self.buffer.push_str(s);
-        }
-
+        self.buffer.push_str(s);
         Ok(())
     }
 }
@@ -176,6 +169,12 @@ impl Paragraph {
             return rewrite_buffer;
         };
 
+        let rewrite_buffer = if self.should_reflow_text {
+            join_soft_breaks(&rewrite_buffer)
+        } else {
+            rewrite_buffer
+        };
+
         let all_lines_with_max_width = rewrite_buffer.lines().all(|l| l.len() <= max_width);
 
         if all_lines_with_max_width {
@@ -194,13 +193,7 @@ impl Paragraph {
 
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
-            let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
-            } else {
-                textwrap::fill(text, wrap_options.clone())
-            };
-            output_buffer.push_str(&wrapped_text);
+            output_buffer.push_str(&textwrap::fill(text, wrap_options.clone()));
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
             }
@@ -210,6 +203,28 @@ impl Paragraph {
     }
 }
 
+/// Join lines so that text can reflow. Lines that end on a hard break are left as is since joining
+/// them with the next line would change how the paragraph gets rendered.
+fn join_soft_breaks(text: &str) -> String {
+    let mut output = String::with_capacity(text.len());
+    let mut lines = text.split('\n').peekable();
+
+    while let Some(line) = lines.next() {
+        output.push_str(line);
+        if lines.peek().is_none() {
+            break;
+        }
+
+        if line.ends_with("  ") || sequence_ends_on_escape(line) {
+            output.push('\n');
+        } else {
+            output.push(' ');
+        }
+    }
+
+    output
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From ca82c868c2a005439e8ac24753e0ef3cebbebbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 12/65] fix: don't escape lines inside of code spans when they
 can't be misinterpreted

---
 src/formatter.rs | 10 +++++++++-
 src/paragraph.rs |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 016a05f..26405eb 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -485,7 +485,15 @@ where
             let trailing_spaces = get_spaces(trailing_space_count);
 
             let line = line.trim_end();
-            let needs_escape = self.needs_escape(line, true);
+            // The first line always comes after the event's opening marker, and the closing marker
+            // of a code span comes right after it's last line.
+            let needs_escape = if i == 0 {
+                None
+            } else if is_last && matches!(event, Event::Code(_)) {
+                self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
+            } else {
+                self.needs_escape(line, true)
+            };
 
             match needs_escape {
                 Some(escape_kind) if escape_kind.multi_character_escape() => {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index b5fcce3..d2041de 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -97,6 +97,12 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        // The code's opening and closing markers keep it from being interpreted as anything else,
+        // and backslash escapes don't work inside of code spans.
+        if matches!(ctx, MarkdownContext::Event(Event::Code(_))) {
+            return self.write_str(s);
+        }
+
         let needs_escape = needs_escape(s).is_some();
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
-- 
2.43.0


From 6084a6123ac2c05d94d649e2ebef7c04f6ba6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 13/65] fix: don't wrap text where a line break would change
 its meaning

---
 src/paragraph.rs | 111 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 108 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index d2041de..8110fe2 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,5 @@
 use crate::escape::needs_escape;
+use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
@@ -7,6 +8,7 @@ use pulldown_cmark::{Event, LinkType, Tag};
 use regex::Regex;
 use std::fmt::Write;
 use std::sync::OnceLock;
+use textwrap::core::Word;
 use textwrap::Options as TextWrapOptions;
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
@@ -192,7 +194,7 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
-            .word_separator(textwrap::WordSeparator::AsciiSpace)
+            .word_separator(textwrap::WordSeparator::Custom(split_words))
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
@@ -221,7 +223,14 @@ fn join_soft_breaks(text: &str) -> String {
             break;
         }
 
-        if line.ends_with("  ") || sequence_ends_on_escape(line) {
+        let current_line_start = output.rfind('\n').map_or(0, |idx| idx + 1);
+        let current_line = output[current_line_start..].trim_start();
+
+        if line.ends_with("  ")
+            || sequence_ends_on_escape(line)
+            // Joining lines like `**` and `*` would turn the text into a thematic break
+            || current_line.chars().all(|c| matches!(c, '*' | '_' | '-' | ' '))
+        {
             output.push('\n');
         } else {
             output.push(' ');
@@ -231,6 +240,102 @@ fn join_soft_breaks(text: &str) -> String {
     output
 }
 
+/// Find all the words in a line of text. Words are kept together if moving the second one to the
+/// start of the next line would change how the text gets parsed.
+fn split_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    let mut words = textwrap::WordSeparator::AsciiSpace
+        .find_words(line)
+        .map(|w| w.word.len() + w.whitespace.len())
+        .peekable();
+    let mut start = 0;
+
+    Box::new(std::iter::from_fn(move || {
+        let mut end = start + words.next()?;
+
+        while let Some(next_len) = words.peek() {
+            let next = line[end..end + next_len].trim_end_matches(' ');
+            let word = line[start..end].trim_end_matches(' ');
+            // A line that only contains an HTML tag could start an HTML block
+            let is_html_tag = start == 0 && word.starts_with('<') && word.ends_with('>');
+            if !is_html_tag && can_break_between(word, next) {
+                break;
+            }
+            end += next_len;
+            words.next();
+        }
+
+        let word = Word::from(&line[start..end]);
+        start = end;
+        Some(word)
+    }))
+}
+
+/// Check if it's ok to add a line break between these two words.
+fn can_break_between(word: &str, next: &str) -> bool {
+    // A backslash at the end of the line turns into a hard break
+    if sequence_ends_on_escape(word) {
+        return false;
+    }
+
+    // Link destinations in angle brackets can't contain newlines
+    if word.rfind("](<").is_some_and(|i| !word[i..].contains('>')) {
+        return false;
+    }
+
+    // Don't break up whitespace between brackets
+    if word.ends_with('[') && next.starts_with(']') {
+        return false;
+    }
+
+    // Adding a line break wouldn't leave anything else on the line
+    if only_block_markers(word) || starts_with_code_fence(word) {
+        return false;
+    }
+
+    !could_interrupt_paragraph(next)
+}
+
+/// Check for characters that make up lists, setext headers, thematic breaks, and the delimiter rows
+/// of tables.
+fn only_block_markers(s: &str) -> bool {
+    s.chars()
+        .all(|c| matches!(c, '-' | '+' | '*' | '_' | '=' | '|' | ':' | ' '))
+}
+
+fn starts_with_code_fence(s: &str) -> bool {
+    s.starts_with("```") || s.starts_with("~~~")
+}
+
+/// Check if a word at the start of a line could be interpreted as some other markdown construct.
+fn could_interrupt_paragraph(word: &str) -> bool {
+    let is_atx_header = || word.len() <= 6 && word.chars().all(|c| c == '#');
+
+    let is_ordered_list = || {
+        word.strip_suffix(['.', ')'])
+            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
+    };
+
+    let is_html_block = || {
+        let Some(tag) = word.strip_prefix('<') else {
+            return false;
+        };
+        let name = tag.strip_prefix('/').unwrap_or(tag);
+        let name_end = name
+            .find(|c: char| !c.is_ascii_alphanumeric())
+            .unwrap_or(name.len());
+        starts_with_html_block_identifier(&name[..name_end])
+            || starts_with_html_block_identifier(tag)
+    };
+
+    only_block_markers(word)
+        || starts_with_code_fence(word)
+        || word.starts_with('>')
+        || word.starts_with("[^")
+        || is_atx_header()
+        || is_ordered_list()
+        || is_html_block()
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
@@ -247,7 +352,7 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$")
+            Regex::new(r"^(((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$)")
                 .expect("valid regex")
         })
         .is_match_at(text, 0)
-- 
2.43.0


From 35d130de6b862f74f3a341793e8a841a177d9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 14/65] fix: don't keep indenting multi-line code spans and
 HTML inside of footnotes

---
 src/footnote.rs  | 11 +++++++++--
 src/formatter.rs |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..9aa85ff 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::fmt::Write;
 
-static FOOTNOTE_INDENTATION: &str = "    ";
+static FOOTNOTE_INDENTATION: Cow<'static, str> = Cow::Borrowed("    ");
 
 /// A buffer where we write footnote definition text
 #[derive(Debug, PartialEq)]
@@ -25,6 +25,13 @@ impl FootnoteDefinition {
         }
     }
 
+    /// All the indentation that the contents of the footnote definition are nested under.
+    pub(super) fn full_indentation(&self) -> impl Iterator<Item = &Cow<'static, str>> {
+        self.indentation
+            .iter()
+            .chain(std::iter::once(&FOOTNOTE_INDENTATION))
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
@@ -32,6 +39,6 @@ impl FootnoteDefinition {
 
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
-        (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
+        (self.buffer, self.indentation, FOOTNOTE_INDENTATION.clone())
     }
 }
diff --git a/src/formatter.rs b/src/formatter.rs
index 26405eb..fe4942e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -445,7 +445,12 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        for indent in self.indentation.iter() {
+        // Footnote definitions hold onto the indentation of the blocks they're nested in
+        let footnote_indentation = self.writers.iter().filter_map(|w| match w {
+            MarkdownWriter::FootnoteDefinition(f) => Some(f.full_indentation()),
+            _ => None,
+        });
+        for indent in footnote_indentation.flatten().chain(self.indentation.iter()) {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
-- 
2.43.0


From ce87addb8ecb6536f893450cb118ca63cb2d38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 15/65] fix: don't corrupt multi-line inline links inside of
 block quotes and lists

---
 src/formatter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index fe4942e..20b2ff1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1521,8 +1521,17 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // Multi-line links include the indentation of the blocks they're nested in
+                        let text = split_lines(text)
+                            .enumerate()
+                            .map(|(i, l)| match i {
+                                0 => l,
+                                _ => self.trim_leading_indentation(l),
+                            })
+                            .join("\n");
+
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text)
+                            crate::links::find_inline_url_and_title(&text)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
-- 
2.43.0


From a262c0a4d833bae0e792e9ddc3e640eeb5816df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 16/65] fix: account for the indentation of footnote
 definitions when wrapping text

---
 src/formatter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 20b2ff1..eb46d8f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -256,7 +256,17 @@ where
 
     /// Get the length of the indentation
     fn indentation_len(&self) -> usize {
-        self.indentation.iter().map(|i| i.len()).sum()
+        self.full_indentation().map(|i| i.len()).sum()
+    }
+
+    /// All the indentation that's written before a line. Footnote definitions hold onto the
+    /// indentation of the blocks they're nested in until they're done formatting.
+    fn full_indentation(&self) -> impl Iterator<Item = &Cow<'static, str>> {
+        let footnote_indentation = self.writers.iter().filter_map(|w| match w {
+            MarkdownWriter::FootnoteDefinition(f) => Some(f.full_indentation()),
+            _ => None,
+        });
+        footnote_indentation.flatten().chain(self.indentation.iter())
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
@@ -445,12 +455,7 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        // Footnote definitions hold onto the indentation of the blocks they're nested in
-        let footnote_indentation = self.writers.iter().filter_map(|w| match w {
-            MarkdownWriter::FootnoteDefinition(f) => Some(f.full_indentation()),
-            _ => None,
-        });
-        for indent in footnote_indentation.flatten().chain(self.indentation.iter()) {
+        for indent in self.full_indentation() {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
-- 
2.43.0


From 105be5189326838560bc951076e741232bfcfa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 17/65] fix: restore the max width when a code block formatter
 panics

---
 src/formatter.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index eb46d8f..c95082a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -570,6 +570,11 @@ where
         let indentation = self.indentation_len();
         let current_max_width = self.formatter.get_config(|c| c.max_width());
         let new_max_with = current_max_width.map(|width| width.saturating_sub(indentation));
+        // restores the width after formatting the code block
+        let restore_width = RestoreMaxWidth {
+            formatter: self.formatter,
+            max_width: current_max_width,
+        };
         self.formatter.set_config(|c| c.set_max_width(new_max_with));
 
         let rewrite = if info_string.contains("markdown") {
@@ -586,9 +591,7 @@ where
             (self.formatter.code_block_formatter)(&ctx, info_string, unformatted_code)
         };
 
-        // restore the width after formatting the code block
-        self.formatter
-            .set_config(|c| c.set_max_width(current_max_width));
+        drop(restore_width);
 
         rewrite
     }
@@ -1623,6 +1626,19 @@ where
     }
 }
 
+/// Resets the formatter's max width when dropped, even if formatting the code block panics.
+struct RestoreMaxWidth<'m> {
+    formatter: &'m MarkdownFormatter,
+    max_width: Option<usize>,
+}
+
+impl Drop for RestoreMaxWidth<'_> {
+    fn drop(&mut self) {
+        self.formatter
+            .set_config(|c| c.set_max_width(self.max_width));
+    }
+}
+
 /// Find some marker that denotes the start of a markdown construct.
 /// for example, `**` for bold or `_` for italics.
 fn find_marker<'i, P>(input: &'i str, range: &Range<usize>, predicate: P) -> &'i str
-- 
2.43.0


From 02de03711f156cd675b4d13938f30ab4d3fcb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 18/65] fix: don't turn a backslash that's followed by trailing
 whitespace into a hard break

---
 src/footnote.rs  |  5 +++++
 src/formatter.rs | 18 ++++++++++++++++++
 src/header.rs    |  5 +++++
 src/paragraph.rs |  5 +++++
 4 files changed, 33 insertions(+)

diff --git a/src/footnote.rs b/src/footnote.rs
index 9aa85ff..84759da 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -32,6 +32,11 @@ impl FootnoteDefinition {
             .chain(std::iter::once(&FOOTNOTE_INDENTATION))
     }
 
+    /// Get what's been written to the internal buffer so far
+    pub(super) fn buffer(&self) -> &str {
+        &self.buffer
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/formatter.rs b/src/formatter.rs
index c95082a..0b354b0 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -289,6 +289,18 @@ where
         }
     }
 
+    /// Check if the current buffer ends on an unescaped backslash
+    fn current_buffer_ends_on_escape(&self) -> bool {
+        let buffer = match self.writers.last() {
+            Some(MarkdownWriter::Paragraph(p)) => p.buffer(),
+            Some(MarkdownWriter::Header(h)) => h.buffer(),
+            Some(MarkdownWriter::FootnoteDefinition(f)) => f.buffer(),
+            Some(_) => return false,
+            None => &self.rewrite_buffer,
+        };
+        sequence_ends_on_escape(buffer.lines().last().unwrap_or_default())
+    }
+
     // Does not count trailing newlines. For some reason that caused issues
     fn count_newlines_in_range(&self, range: &Range<usize>) -> usize {
         let snippet = &self.input[range.clone()];
@@ -776,6 +788,12 @@ where
                 Event::SoftBreak => {
                     last_position = range.end;
 
+                    // The parser trims whitespace at the end of the line. Without it the next pass
+                    // would interpret a trailing `\\` as a hard break.
+                    if self.current_buffer_ends_on_escape() {
+                        self.write_char('\\')?;
+                    }
+
                     writeln_context!(self, &event)?;
 
                     // paraphraphs write their indentation after reformatting the text
diff --git a/src/header.rs b/src/header.rs
index 4a0c4fb..3ee85a6 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -124,6 +124,11 @@ impl<'i> Header<'i> {
         }
     }
 
+    /// Get what's been written to the internal buffer so far
+    pub(super) fn buffer(&self) -> &str {
+        &self.buffer
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 8110fe2..60ca5b9 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -163,6 +163,11 @@ impl Paragraph {
         }
     }
 
+    /// Get what's been written to the internal buffer so far
+    pub(super) fn buffer(&self) -> &str {
+        &self.buffer
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
-- 
2.43.0


From 069de04845c132ad22e62d95df035b2bf22d9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 19/65] fix: only escape lines of a code span that are lazy
 continuations

---
 src/formatter.rs | 25 ++++++++++++++++++++++++-
 src/header.rs    |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 0b354b0..29b0ac9 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -483,6 +483,26 @@ where
         output
     }
 
+    /// Check if a line doesn't have all the leading indentation of the blocks that it's nested in.
+    fn is_lazy_continuation(&self, s: &str) -> bool {
+        let mut input = s;
+        for indent in self.full_indentation() {
+            let rest = if indent.starts_with('>') {
+                input
+                    .trim_start()
+                    .strip_prefix('>')
+                    .map(|i| i.strip_prefix(char::is_whitespace).unwrap_or(i))
+            } else {
+                (0..indent.len()).try_fold(input, |s, _| s.strip_prefix(char::is_whitespace))
+            };
+            let Some(rest) = rest else {
+                return true;
+            };
+            input = rest;
+        }
+        false
+    }
+
     /// Rewrite a single [`Event`] that spans over multiple lines
     fn rewrite_multiline_event(&mut self, event: &Event<'i>, snippet: &'i str) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
@@ -508,9 +528,12 @@ where
 
             let line = line.trim_end();
             // The first line always comes after the event's opening marker, and the closing marker
-            // of a code span comes right after it's last line.
+            // of a code span comes right after it's last line. The other lines of a code span are
+            // only going to be parsed differently if they're now nested in another block.
             let needs_escape = if i == 0 {
                 None
+            } else if matches!(event, Event::Code(_)) && !self.is_lazy_continuation(s) {
+                None
             } else if is_last && matches!(event, Event::Code(_)) {
                 self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
             } else {
diff --git a/src/header.rs b/src/header.rs
index 3ee85a6..187e2f7 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -24,7 +24,7 @@ impl<'i> WriteContext<'i> for Header<'_> {
     fn write_context_str(&mut self, ctx: MarkdownContext<'_, 'i>, s: &str) -> std::fmt::Result {
         let ctx_does_not_need_escape = !matches!(
             ctx,
-            MarkdownContext::Event(Event::Text(_) | Event::InlineHtml(_) | Event::Code(_))
+            MarkdownContext::Event(Event::Text(_) | Event::InlineHtml(_))
         );
 
         if ctx_does_not_need_escape || !self.is_setext_header() || !self.buffer.ends_with('\n') {
-- 
2.43.0


From 31589788db1a14b9ab4db03ea272bcf8b1b095b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 20/65] fix: don't escape backticks that can't start a fenced
 code block

---
 src/escape.rs    | 14 ++++++++++++--
 src/formatter.rs | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bb91906..f296cb6 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,8 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return true;
         }
 
-        // opening code fences can't contain backtick (`) or tilde (~) in the info string.
-        !info_string.contains(['`', '~'])
+        // Code fences that open with backticks (`) can't contain backticks in the info string.
+        marker == '~' || !info_string.contains('`')
     };
 
     match first_char {
@@ -167,6 +167,16 @@ impl EscapeKind {
         }
     }
 
+    /// Check if this looks like a code fence that's made up of backticks (`)
+    pub(crate) fn is_backtick_fence(&self) -> bool {
+        matches!(
+            self,
+            Self::SingleLine(SingleLineEscape::FencedCodeBlock(
+                FencedCodeBlockMarker::Backtick
+            ))
+        )
+    }
+
     /// Check if we need to escape multiple characters
     pub(crate) fn multi_character_escape(&self) -> bool {
         matches!(
diff --git a/src/formatter.rs b/src/formatter.rs
index 29b0ac9..11860fe 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -713,7 +713,15 @@ where
                         self.needs_indent = false;
                     }
 
-                    let needs_escape = self.needs_escape(text, false);
+                    // The info string of a backtick code fence can't contain any backticks
+                    let is_backtick_info_string = || {
+                        let line = split_lines(&self.input[range.start..]).next();
+                        line.is_some_and(|l| l.trim_start_matches('`').contains('`'))
+                    };
+                    let needs_escape = match self.needs_escape(text, false) {
+                        Some(kind) if kind.is_backtick_fence() && is_backtick_info_string() => None,
+                        needs_escape => needs_escape,
+                    };
 
                     let could_be_interpreted_as_html =
                         |t: &str, state: &mut FormatState<'i, 'm, I>| -> bool {
-- 
2.43.0


From 55f253b1703bcbef6e10bcb6173d3a153df9e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 21/65] fix: don't drop or break escaped link labels and
 destinations

---
 src/formatter.rs |  2 ++
 src/links.rs     | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 11860fe..d787f14 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1616,6 +1616,8 @@ where
                             write!(self, "]")?;
                         } else if label.starts_with('^') {
                             write!(self, "][\\{label}]")?;
+                        } else if sequence_ends_on_escape(label) {
+                            write!(self, "][{label}\\]")?;
                         } else {
                             write!(self, "][{label}]")?;
                         }
diff --git a/src/links.rs b/src/links.rs
index fdbb740..9ba61f6 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -110,7 +110,11 @@ pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str>
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
-        Cow::from(format!("<{url}>"))
+        let escape = if sequence_ends_on_escape(url) { "\\" } else { "" };
+        Cow::from(format!("<{url}{escape}>"))
+    } else if sequence_ends_on_escape(url) {
+        // Don't escape the characters that come after the url
+        Cow::from(format!("{url}\\"))
     } else {
         url.into()
     }
@@ -193,7 +197,15 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
     // +1 to move past '['
     // -1 to move before ']'
-    input[start + 1..end - 1].trim()
+    let label = input[start + 1..end - 1].trim();
+
+    // The parser also allows `[foo]\[bar]`
+    match input.rsplit_once("]\\[") {
+        Some((text, escaped_label)) if end == text.len() + 1 => {
+            escaped_label.trim_end_matches(']').trim()
+        }
+        _ => label,
+    }
 }
 
 /// Inline links are expected to be well formed:
-- 
2.43.0


From b224b16fa1eec268e68d95699cbb0a0c67f47a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 22/65] fix: don't drop the blank line after an HTML block
 inside of a block quote

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index d787f14..8beec22 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -684,6 +684,12 @@ where
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
+
+                    if matches!(tag, TagEnd::HtmlBlock) {
+                        // The range can contain the `>` marker of the blank line that follows the
+                        // HTML block, so keep the position of the block's last line.
+                        last_position = self.last_position;
+                    }
                 }
                 Event::Text(ref parsed_text) => {
                     last_position = range.end;
-- 
2.43.0


From 35b470eba5a1c6b097c6d0cff81e697c77856d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 23/65] fix: separate heading attributes from the id or classes
 before them

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 187e2f7..1893f9d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -348,7 +348,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From 952f842a5d94779ec95dc10edf539250c0fe3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 24/65] fix: count the newlines of footnote definitions in
 their own buffer

---
 src/formatter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8beec22..95d8ba6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -289,16 +289,22 @@ where
         }
     }
 
+    /// Get what's been written to the current buffer so far
+    fn current_buffer_text(&self) -> Option<&str> {
+        match self.writers.last() {
+            Some(MarkdownWriter::Paragraph(p)) => Some(p.buffer()),
+            Some(MarkdownWriter::Header(h)) => Some(h.buffer()),
+            Some(MarkdownWriter::FootnoteDefinition(f)) => Some(f.buffer()),
+            Some(_) => None,
+            None => Some(&self.rewrite_buffer),
+        }
+    }
+
     /// Check if the current buffer ends on an unescaped backslash
     fn current_buffer_ends_on_escape(&self) -> bool {
-        let buffer = match self.writers.last() {
-            Some(MarkdownWriter::Paragraph(p)) => p.buffer(),
-            Some(MarkdownWriter::Header(h)) => h.buffer(),
-            Some(MarkdownWriter::FootnoteDefinition(f)) => f.buffer(),
-            Some(_) => return false,
-            None => &self.rewrite_buffer,
-        };
-        sequence_ends_on_escape(buffer.lines().last().unwrap_or_default())
+        self.current_buffer_text().is_some_and(|buffer| {
+            sequence_ends_on_escape(buffer.lines().last().unwrap_or_default())
+        })
     }
 
     // Does not count trailing newlines. For some reason that caused issues
@@ -375,7 +381,8 @@ where
             return Ok(());
         }
         let newlines = self
-            .rewrite_buffer
+            .current_buffer_text()
+            .unwrap_or(&self.rewrite_buffer)
             .chars()
             .rev()
             .take_while(|c| *c == '\n' || *c == '\r')
-- 
2.43.0


From c86f335ec7ec3508cd81e9a8bace9d1ca05135d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 25/65] fix: don't duplicate the blank lines of HTML blocks
 inside of lists

---
 src/formatter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 95d8ba6..f60cf85 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -856,11 +856,16 @@ where
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-                    if self.needs_indent {
-                        self.write_newlines(newlines)?;
-                    }
                     let snippet = &self.input[range].trim_end();
-                    self.write_event_str(&event, snippet)?;
+                    if snippet.is_empty() {
+                        // A blank line. It's newline gets written along with the next line.
+                        last_position = self.last_position;
+                    } else {
+                        if self.needs_indent {
+                            self.write_newlines(newlines)?;
+                        }
+                        self.write_event_str(&event, snippet)?;
+                    }
                     self.check_needs_indent(&event);
                 }
                 Event::Rule => {
-- 
2.43.0


From 70c8270fc8da5cab0bdffdd5ce77bccf377442f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 26/65] fix: pad table cells with combining characters to their
 display width

---
 src/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..50a84bc 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -3,7 +3,6 @@ use itertools::{EitherOrBoth, Itertools};
 use pulldown_cmark::Alignment;
 use std::borrow::Cow;
 use std::fmt::Write;
-use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, PartialEq)]
 pub(super) struct TableState<'a> {
@@ -143,12 +142,9 @@ impl<'a> TableState<'a> {
         Ok(result)
     }
 
-    fn write_wth_padding(buffer: &mut String, value: &str, mut size: usize) -> std::fmt::Result {
-        let offset = UnicodeSegmentation::graphemes(value, true)
-            .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
-            .sum();
-        size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+    fn write_wth_padding(buffer: &mut String, value: &str, size: usize) -> std::fmt::Result {
+        let padding = size.saturating_sub(unicode_str_width(value));
+        write!(buffer, " {value}{:padding$} |", "")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
-- 
2.43.0


From 9c921c31dbfa08a08b1af4dcadb6126cc931cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 27/65] fix: keep blank lines and code in footnotes and
 headings nested in block quotes

---
 src/formatter.rs | 30 +++++++++++++++++++++---------
 src/header.rs    |  5 +++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f60cf85..1be2578 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -5,7 +5,7 @@ use std::iter::Peekable;
 use std::ops::Range;
 use std::str::FromStr;
 
-use itertools::Itertools;
+use itertools::{Either, Itertools};
 use pulldown_cmark::{CodeBlockKind, Event, HeadingLevel, TagEnd};
 use pulldown_cmark::{LinkType, Parser, Tag};
 
@@ -242,6 +242,14 @@ where
             .is_some_and(|w| matches!(w, MarkdownWriter::Paragraph(_)))
     }
 
+    /// Check if we're formatting a footnote definition, and not a blockquote that's nested in it.
+    fn in_footnote_definition(&self) -> bool {
+        matches!(
+            self.writers.last(),
+            Some(MarkdownWriter::FootnoteDefinition(_))
+        ) && !self.indentation.iter().any(|i| i.starts_with('>'))
+    }
+
     /// Check if we're in a Table
     fn in_table(&self) -> bool {
         self.writers
@@ -259,14 +267,15 @@ where
         self.full_indentation().map(|i| i.len()).sum()
     }
 
-    /// All the indentation that's written before a line. Footnote definitions hold onto the
-    /// indentation of the blocks they're nested in until they're done formatting.
+    /// All the indentation that's written before a line. Footnote definitions and headers hold
+    /// onto the indentation of the blocks they're nested in until they're done formatting.
     fn full_indentation(&self) -> impl Iterator<Item = &Cow<'static, str>> {
-        let footnote_indentation = self.writers.iter().filter_map(|w| match w {
-            MarkdownWriter::FootnoteDefinition(f) => Some(f.full_indentation()),
+        let writer_indentation = self.writers.iter().filter_map(|w| match w {
+            MarkdownWriter::FootnoteDefinition(f) => Some(Either::Left(f.full_indentation())),
+            MarkdownWriter::Header(h) => Some(Either::Right(h.indentation().iter())),
             _ => None,
         });
-        footnote_indentation.flatten().chain(self.indentation.iter())
+        writer_indentation.flatten().chain(self.indentation.iter())
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
@@ -692,9 +701,12 @@ where
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
 
-                    if matches!(tag, TagEnd::HtmlBlock) {
-                        // The range can contain the `>` marker of the blank line that follows the
-                        // HTML block, so keep the position of the block's last line.
+                    let is_list_or_item = matches!(tag, TagEnd::List(_) | TagEnd::Item);
+                    if matches!(tag, TagEnd::HtmlBlock | TagEnd::FootnoteDefinition)
+                        || (is_list_or_item && self.in_footnote_definition())
+                    {
+                        // The range can contain the `>` markers of the blank lines that follow the
+                        // block, so keep the position of the block's last line.
                         last_position = self.last_position;
                     }
                 }
diff --git a/src/header.rs b/src/header.rs
index 1893f9d..25379ae 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -134,6 +134,11 @@ impl<'i> Header<'i> {
         self.buffer.is_empty()
     }
 
+    /// The indentation that we took when creating `Self`
+    pub(super) fn indentation(&self) -> &[Cow<'static, str>] {
+        &self.indentation
+    }
+
     /// Determine what kind of markdown header this represents
     pub(super) fn kind(&self) -> HeaderKind<'i> {
         self.kind.clone()
-- 
2.43.0


From fe2a595aa3f8089b7242bcba209439df295b4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 28/65] fix: don't nest indented HTML blocks in the list that
 comes before them

---
 src/formatter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1be2578..4b9ba62 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1359,6 +1359,14 @@ where
                     self.write_newlines(newlines)?;
                 }
 
+                let after_list = matches!(self.last_event, Some((Event::End(TagEnd::List(_)), _)));
+                let is_indented = matches!(self.peek(), Some(Event::Text(t)) if t.trim().is_empty());
+                if after_list && is_indented {
+                    // Skip the indentation of the first line. Depending on the indentation of the
+                    // formatted list the HTML block could become part of the last list item.
+                    self.events.next();
+                }
+
                 self.nested_context.push(tag);
                 self.last_position = range.start;
             }
-- 
2.43.0


From c855675719dd904c3b8e1aaba97e4b9f8948d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 29/65] fix: don't end link text at brackets in code spans when
 looking for the url

---
 src/formatter.rs |  8 ++++++++
 src/links.rs     | 31 +++++++++----------------------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4b9ba62..f90abbd 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1616,6 +1616,14 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // Brackets in the text, e.g. the ones in code spans, don't end the link.
+                        // The text ends at the first bracket after the last inline element.
+                        let text_end = self.last_position.max(range.start);
+                        let text_end = self.input[text_end..range.end]
+                            .find(']')
+                            .map_or(range.start, |offset| text_end + offset);
+                        let text = &self.input[text_end..range.end];
+
                         // Multi-line links include the indentation of the blocks they're nested in
                         let text = split_lines(text)
                             .enumerate()
diff --git a/src/links.rs b/src/links.rs
index 9ba61f6..0a3f88e 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -155,7 +155,6 @@ fn find_text_within_last_set_of_balance_bracket(
     label: &str,
     opener: u8,
     closer: u8,
-    halt_condition: Option<fn(u8) -> bool>,
 ) -> (usize, usize) {
     let mut stack = vec![];
     let mut was_last_escape = false;
@@ -163,9 +162,7 @@ fn find_text_within_last_set_of_balance_bracket(
     let mut start = 0;
     let mut end = label.len();
 
-    let mut bytes = label.bytes().enumerate().peekable();
-
-    while let Some((index, byte)) = bytes.next() {
+    for (index, byte) in label.bytes().enumerate() {
         if !was_last_escape && byte == opener {
             stack.push(index)
         }
@@ -175,15 +172,6 @@ fn find_text_within_last_set_of_balance_bracket(
                 start = start_index;
                 end = index;
             }
-
-            if stack.is_empty() && halt_condition.is_some() {
-                match (bytes.peek(), halt_condition) {
-                    (Some((_, byte)), Some(halt_condition)) if halt_condition(*byte) => {
-                        break;
-                    }
-                    _ => {}
-                }
-            }
         }
         was_last_escape = is_char_esacped(byte as char, was_last_escape);
     }
@@ -194,7 +182,7 @@ fn find_text_within_last_set_of_balance_bracket(
 /// [foo][bar] -> bar
 /// [link \[bar][ref] -> ref
 pub(super) fn find_reference_link_label(input: &str) -> &str {
-    let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
+    let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']');
     // +1 to move past '['
     // -1 to move before ']'
     let label = input[start + 1..end - 1].trim();
@@ -208,15 +196,14 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     }
 }
 
-/// Inline links are expected to be well formed:
-/// [link](/uri) -> '/uri'
-/// [link](</my uri>) -> '/my uri'
+/// Inline links are expected to be well formed, and to start at the end of their text:
+/// ](/uri) -> '/uri'
+/// ](</my uri>) -> '/my uri'
 pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(String, char)>)> {
-    let (_, end) =
-        find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'('));
-    // +1 to move past '('
-    // -1 to move before ')'
-    let inline_url = input[end + 1..input.len() - 1].trim();
+    let inline_url = input
+        .strip_prefix("](")
+        .and_then(|input| input.strip_suffix(')'))?
+        .trim();
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
-- 
2.43.0


From b6809799fc52d4d705aea5a4c9ead5118cec5a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 30/65] fix: don't escape the closing bracket of multi-line
 link labels

---
 src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index f90abbd..7ef08c6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1659,6 +1659,10 @@ where
                             }
 
                             self.write_str(&label)?;
+                            if sequence_ends_on_escape(&label) {
+                                // Don't escape the closing bracket
+                                write!(self, "\\")?;
+                            }
                             write!(self, "]")?;
                         } else if label.starts_with('^') {
                             write!(self, "][\\{label}]")?;
-- 
2.43.0


From 6e12b594939f288afedafcc98978ab06052c81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 31/65] fix: keep the end of multi-line link titles that have a
 backslash before a newline

---
 src/links.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 0a3f88e..e2b0481 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -526,15 +526,19 @@ impl<'a> LinkLines<'a> {
             let is_last = iter.peek().is_none();
             if !is_last {
                 write!(buffer, "{text} ")?;
-            } else if sequence_ends_on_escape(text) {
-                // Escape this so that the next formatting run doesn't
-                // interpret the closing `]` as `\]`.
-                write!(buffer, "{text}\\")?;
             } else {
                 write!(buffer, "{text}")?;
             }
         }
-        write!(writer, "{}", buffer.trim())
+        let text = buffer.trim();
+        // Escape this so that the next formatting run doesn't
+        // interpret the closing `]` as `\]`.
+        let escape = if sequence_ends_on_escape(text) {
+            "\\"
+        } else {
+            ""
+        };
+        write!(writer, "{text}{escape}")
     }
 }
 
@@ -627,6 +631,7 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the label
                     if iter.peek().is_some_and(|(_, c)| *c != ']') {
                         tracing::trace!(
@@ -790,6 +795,7 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the title
                     if iter.peek().is_some_and(|(_, c)| *c != marker.closer()) {
                         tracing::trace!(
-- 
2.43.0


From 55a78d0454733bbfdd3c6b46e99125d3a76b6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 32/65] fix: write the space before definitions that follow an
 empty nested quote

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 7ef08c6..18f3ea7 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1432,6 +1432,12 @@ where
                 self.join_with_indentation(&buffer, false)?;
             }
             TagEnd::BlockQuote(..) => {
+                if let Some(last) = self.indentation.last_mut() {
+                    // A nested block quote could have trimmed the indentation
+                    if last == ">" {
+                        *last = "> ".into()
+                    }
+                }
                 let ref_def_range = self.last_position..range.end;
                 self.rewrite_reference_link_definitions(&ref_def_range)?;
                 let rest_range = self.last_position..range.end;
-- 
2.43.0


From b0e00805e2967b3c163cce10d64f6edd319c05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 33/65] fix: don't add blank lines between footnote definitions
 in block quotes

---
 src/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 18f3ea7..2e7fac1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1565,7 +1565,11 @@ where
                     self.indentation.pop();
                 }
 
-                if let Some(Event::Start(Tag::FootnoteDefinition(_))) = self.peek() {
+                let next_footnote = match self.peek_with_range() {
+                    Some((Event::Start(Tag::FootnoteDefinition(_)), range)) => Some(range.clone()),
+                    _ => None,
+                };
+                if next_footnote.is_some_and(|range| self.count_newlines(&range) == 0) {
                     // separte consecutive footnote definitinons by at least one line
                     self.write_newlines(1)?;
                 };
-- 
2.43.0


From ee601929b374f3ee16b92f11b69b3ab1419c7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 34/65] fix: indent both of the comments that keep a list from
 absorbing code

---
 src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 2e7fac1..5b5af21 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1523,7 +1523,8 @@ where
                 //     final list item, you can insert a blank HTML comment
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
                     self.write_newlines(1)?;
-                    writeln!(self, "<!-- Don't absorb code block into list -->")?;
+                    write!(self, "<!-- Don't absorb code block into list -->")?;
+                    self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
                 };
             }
-- 
2.43.0


From f3726b05bb8d50c3d43db83664251170faf5fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 35/65] fix: don't add quote markers to reference labels that
 start on the next line

---
 src/formatter.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5b5af21..b00fcb1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1658,19 +1658,25 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        let label = crate::links::find_reference_link_label(text);
+                        // Multi-line links include the indentation of the blocks they're nested in
+                        let text = split_lines(text)
+                            .enumerate()
+                            .map(|(i, l)| match i {
+                                0 => l,
+                                _ => self.trim_leading_indentation(l),
+                            })
+                            .join("\n");
+
+                        let label = crate::links::find_reference_link_label(&text);
                         if count_newlines(label) > 0 {
                             write!(self, "][")?;
-                            let label = split_lines(label)
-                                .map(|l| self.trim_leading_indentation(l))
-                                .join("\n");
 
                             if label.starts_with('^') {
                                 write!(self, "\\")?;
                             }
 
-                            self.write_str(&label)?;
-                            if sequence_ends_on_escape(&label) {
+                            self.write_str(label)?;
+                            if sequence_ends_on_escape(label) {
                                 // Don't escape the closing bracket
                                 write!(self, "\\")?;
                             }
-- 
2.43.0


From 32e7b2138d4c2dff0d214ace992d4624ba4bab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 36/65] fix: don't break lines after the hyphens of words

---
 src/paragraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 60ca5b9..f6f277d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -199,6 +199,7 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .word_separator(textwrap::WordSeparator::Custom(split_words))
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
-- 
2.43.0


From 76362cd9196ec39e4755ffde2bab6d358b39f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 37/65] fix: keep lines that would become list items when
 reflowing text

---
 src/paragraph.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index f6f277d..6f22c4a 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -236,6 +236,8 @@ fn join_soft_breaks(text: &str) -> String {
             || sequence_ends_on_escape(line)
             // Joining lines like `**` and `*` would turn the text into a thematic break
             || current_line.chars().all(|c| matches!(c, '*' | '_' | '-' | ' '))
+            // Joining a line like `+` or `1.` with the next one would turn the text into a list
+            || is_list_marker(current_line)
         {
             output.push('\n');
         } else {
@@ -308,6 +310,13 @@ fn only_block_markers(s: &str) -> bool {
         .all(|c| matches!(c, '-' | '+' | '*' | '_' | '=' | '|' | ':' | ' '))
 }
 
+/// Check if the text is nothing but the marker of a list item.
+fn is_list_marker(s: &str) -> bool {
+    matches!(s, "-" | "+" | "*")
+        || s.strip_suffix(['.', ')'])
+            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
+}
+
 fn starts_with_code_fence(s: &str) -> bool {
     s.starts_with("```") || s.starts_with("~~~")
 }
@@ -316,11 +325,6 @@ fn starts_with_code_fence(s: &str) -> bool {
 fn could_interrupt_paragraph(word: &str) -> bool {
     let is_atx_header = || word.len() <= 6 && word.chars().all(|c| c == '#');
 
-    let is_ordered_list = || {
-        word.strip_suffix(['.', ')'])
-            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
-    };
-
     let is_html_block = || {
         let Some(tag) = word.strip_prefix('<') else {
             return false;
@@ -338,7 +342,7 @@ fn could_interrupt_paragraph(word: &str) -> bool {
         || word.starts_with('>')
         || word.starts_with("[^")
         || is_atx_header()
-        || is_ordered_list()
+        || is_list_marker(word)
         || is_html_block()
 }
 
-- 
2.43.0


From 1652a690b28323c53f74600ad8cd3649a1943faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 38/65] fix: don't start wrapped lines with text that the next
 pass escapes

---
 src/paragraph.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 6f22c4a..4295558 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -344,6 +344,18 @@ fn could_interrupt_paragraph(word: &str) -> bool {
         || is_atx_header()
         || is_list_marker(word)
         || is_html_block()
+        || starts_with_marker_before_punctuation(word)
+}
+
+/// Words like `#*` and `-]`. Their first characters may be text of their own, and if they're at the
+/// start of a line the next pass will escape them.
+fn starts_with_marker_before_punctuation(word: &str) -> bool {
+    ['-', '=', '#'].iter().any(|marker| {
+        word.strip_prefix(*marker).is_some_and(|rest| {
+            rest.trim_start_matches(*marker)
+                .starts_with(|c: char| c.is_ascii_punctuation())
+        })
+    })
 }
 
 /// Determine if this is the delimiter row of a markdown table.
-- 
2.43.0


From 81fcea0a1c2d870f16dcb42ab1476e9648399289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 39/65] fix: don't turn inline HTML tags into HTML blocks when
 wrapping or reflowing text

---
 src/paragraph.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4295558..7d14ea4 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -183,7 +183,7 @@ impl Paragraph {
         };
 
         let rewrite_buffer = if self.should_reflow_text {
-            join_soft_breaks(&rewrite_buffer)
+            break_up_html_tag(join_soft_breaks(&rewrite_buffer))
         } else {
             rewrite_buffer
         };
@@ -213,10 +213,49 @@ impl Paragraph {
             }
         }
 
-        output_buffer
+        break_up_html_tag(output_buffer)
     }
 }
 
+/// A first line that only contains an HTML tag would start an HTML block, so move the end of the
+/// tag to the next line.
+fn break_up_html_tag(mut text: String) -> String {
+    let first_line = text.lines().next().unwrap_or_default().trim_end();
+    if is_html_tag(first_line) {
+        let can_break_at = |idx: &usize| {
+            let next_word = first_line[idx + 1..].split(' ').next().unwrap_or_default();
+            can_break_between(&first_line[..*idx], next_word)
+        };
+        let mut spaces = first_line.rmatch_indices(' ').map(|(idx, _)| idx);
+        if let Some(idx) = spaces.find(can_break_at) {
+            text.replace_range(idx..=idx, "\n");
+        }
+    }
+    text
+}
+
+/// Check if the line starts with an HTML tag and ends where the tag ends.
+fn is_html_tag(line: &str) -> bool {
+    let mut quote = None;
+    let starts_with_tag_name = line
+        .strip_prefix('<')
+        .is_some_and(|tag| tag.starts_with(|c: char| c.is_ascii_alphabetic() || c == '/'));
+    if !starts_with_tag_name {
+        return false;
+    }
+    for (idx, c) in line.char_indices().skip(1) {
+        match quote {
+            Some(q) if q == c => quote = None,
+            Some(_) => {}
+            None if matches!(c, '<' | '`') => return false,
+            None if matches!(c, '"' | '\'') => quote = Some(c),
+            None if c == '>' => return idx + 1 == line.len(),
+            None => {}
+        }
+    }
+    false
+}
+
 /// Join lines so that text can reflow. Lines that end on a hard break are left as is since joining
 /// them with the next line would change how the paragraph gets rendered.
 fn join_soft_breaks(text: &str) -> String {
-- 
2.43.0


From fd1fea55881de6a46fd03fcb35a98d6e962a4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 40/65] fix: compare display widths with the maximum width

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 7d14ea4..f7d31c2 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,7 +188,9 @@ impl Paragraph {
             rewrite_buffer
         };
 
-        let all_lines_with_max_width = rewrite_buffer.lines().all(|l| l.len() <= max_width);
+        let all_lines_with_max_width = rewrite_buffer
+            .lines()
+            .all(|l| textwrap::core::display_width(l) <= max_width);
 
         if all_lines_with_max_width {
             // Don't need to wrap any lines
-- 
2.43.0


From f3789187d8e14dd9be3879e6b1b73cc84d291df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 41/65] fix: don't leave a space after the marker of a quote
 whose first line is blank

---
 src/formatter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index b00fcb1..8ba80fa 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1001,8 +1001,14 @@ where
                     Some((Event::End(TagEnd::BlockQuote(..)), _)) => {
                         let snippet = &self.input[range.clone()];
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
-                        if !link_defs.is_empty() {
-                            write!(self, "> ")?;
+                        if let Some(first_def) = link_defs.first() {
+                            let leading_newline_snippet =
+                                &self.input[range.start..first_def.range().start];
+                            if count_newlines(leading_newline_snippet) > 0 {
+                                write!(self, ">")?;
+                            } else {
+                                write!(self, "> ")?;
+                            }
                             self.indentation.push("> ".into());
                             self.rewrite_reference_link_definitions_inner(link_defs)?;
                             // remove trailing space in case we're about to push newlines
-- 
2.43.0


From ed7385878ae80b40c58b305eb219d51719179faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 42/65] fix: normalize the line endings of all hard breaks

---
 src/formatter.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8ba80fa..9e549cd 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -858,13 +858,9 @@ where
                     }
                 }
                 Event::HardBreak => {
-                    let hard_break = match &self.input[range] {
-                        "\\\r" | "\\\r\n" | "\\\n" => "\\\n",
-                        "  \r" | "  \r\n" | "  \n" => "  \n",
-                        h => h,
-                    };
-
-                    self.write_event_str(&event, hard_break)?;
+                    // A backslash or two or more spaces, and the line ending
+                    let marker = self.input[range].trim_end_matches(['\r', '\n']);
+                    self.write_event_str(&event, &format!("{marker}\n"))?;
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-- 
2.43.0


From 9119064ff63d2c5ddc32f05d8524b8c1ce4af2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 43/65] fix: report when the output can't be written to stdout

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 03acee5..90f4c52 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@
 use clap::Parser;
 use markdown_fmt::{FormatBuilder, rewrite_markdown_with_builder};
 use std::fs;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use tracing_subscriber::{EnvFilter, fmt, prelude::*};
 
@@ -25,8 +26,11 @@ struct Cli {
 
 fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow::Error> {
     if stdout {
-        print!("{result}");
-        Ok(())
+        // `print!` panics when it can't write, and what remains in the
+        // buffer is only written (and errors ignored) when the process ends
+        let mut out = std::io::stdout().lock();
+        out.write_all(result.as_bytes())?;
+        Ok(out.flush()?)
     } else {
         Ok(std::fs::write(input, result)?)
     }
-- 
2.43.0


From 5952b402d3c9dd7de8176ddb1191cb72cc7c4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 44/65] fix: don't log to stdout, where the formatted text goes

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 90f4c52..c581af5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -38,7 +38,7 @@ fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow:
 
 fn main() -> Result<(), anyhow::Error> {
     tracing_subscriber::registry()
-        .with(fmt::layer())
+        .with(fmt::layer().with_writer(std::io::stderr))
         .with(EnvFilter::from_env("MARKDOWN_FMT_LOG"))
         .init();
 
-- 
2.43.0


From 1c84c777d83577b85faa11d5483477554a26bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 45/65] fix: escape the '^' of definition labels that start
 with white space

The white space gets trimmed, and without the escape the definition would
turn into a footnote definition.
---
 src/links.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index e2b0481..0978c5e 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -294,10 +294,12 @@ impl<'a> LinkReferenceDefinitionBuilder<'a> {
     fn set_label(&mut self, label: Cow<'a, str>, range: std::ops::Range<usize>, offset: usize) {
         let mut label_parts = self.label.take().unwrap_or(LinkLines::new());
         let offset_range = (offset + range.start)..(offset + range.end);
-        if label_parts.is_empty() && label.starts_with('^') {
+        let is_start = label_parts.iter().all(|text| text.trim().is_empty());
+        if is_start && label.trim_start().starts_with('^') {
+            let label = label.trim_start();
             let mut new_label = String::with_capacity(label.len() + 1);
             new_label.push('\\');
-            new_label.push_str(&label);
+            new_label.push_str(label);
             label_parts.push((new_label.into(), offset_range));
         } else {
             label_parts.push((label, offset_range));
-- 
2.43.0


From 3d8fabfca5a540bfa04850f1ed4944e63b8be269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 46/65] fix: keep unicode whitespace in the destinations of
 link definitions

Only ASCII whitespace ends a link destination. The rest of the destination and
the title were lost otherwise.
---
 src/links.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 0978c5e..690aa3b 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -703,7 +703,7 @@ fn parse_link_reference_definition<'i>(
                 // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
                 // like a block quote, then we need to potentially ignore leading `>` chars, but if
                 // we're still on the same line then we can assume that the `>` is part of the URL.
-                if c.is_whitespace() || (newline_count > 0 && c == '>') {
+                if c.is_ascii_whitespace() || (newline_count > 0 && c == '>') {
                     continue;
                 }
 
@@ -741,7 +741,8 @@ fn parse_link_reference_definition<'i>(
                         parsed_until = idx;
                     }
                     _ => {
-                        if !c.is_whitespace() {
+                        // Other unicode whitespace is part of the destination
+                        if !c.is_ascii_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
                                 let url = Cow::from(&input[start..idx + c.len_utf8()]);
-- 
2.43.0


From e61ea009bf5ea5825473b78c9a7fac7ba36b83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 47/65] fix: keep unusual white space at the end of a line of a
 code span or inline HTML

Only spaces get counted and written again. Tabs and Unicode spaces, which
belong to the text, were dropped or replaced.
---
 src/formatter.rs | 2 +-
 src/utils.rs     | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9e549cd..9e24e55 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -542,7 +542,7 @@ where
             let trailing_space_count = count_trailing_spaces(line);
             let trailing_spaces = get_spaces(trailing_space_count);
 
-            let line = line.trim_end();
+            let line = line.trim_end_matches(' ');
             // The first line always comes after the event's opening marker, and the closing marker
             // of a code span comes right after it's last line. The other lines of a code span are
             // only going to be parsed differently if they're now nested in another block.
diff --git a/src/utils.rs b/src/utils.rs
index b8cce6a..e6e54ab 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,16 +4,11 @@ use std::iter::Iterator;
 use unicode_width::UnicodeWidthStr;
 
 static SPACES: &str = "                                                                           ";
-const NON_BREAKING_SPACE: char = '\u{a0}';
 const SPACE: char = ' ';
 
 /// Count the number of trailing spaces at the end of input
 pub(crate) fn count_trailing_spaces(s: &str) -> usize {
-    s.chars()
-        .rev()
-        .take_while(|c| c.is_whitespace())
-        .filter(|c| matches!(*c, NON_BREAKING_SPACE | SPACE))
-        .count()
+    s.chars().rev().take_while(|c| *c == SPACE).count()
 }
 
 /// Get the number of trailing spaces that you need.
-- 
2.43.0


From c9174c71ac5fa6fd3e49ddd972a9a26a5ad2eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 48/65] fix: don't drop Unicode white space at the end of
 paragraphs and headings

Only Markdown's own white space can be trimmed. A non-breaking space is part
of the text.
---
 src/formatter.rs | 22 ++++++++++++----------
 src/header.rs    | 24 ++++++++++++++----------
 src/utils.rs     |  5 +++++
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9e24e55..88e19c0 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -20,7 +20,8 @@ use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, count_trailing_spaces, get_spaces, sequence_ends_on_escape, split_lines,
+    count_newlines, count_trailing_spaces, get_spaces, is_markdown_whitespace,
+    sequence_ends_on_escape, split_lines,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -454,19 +455,20 @@ where
         buffer: &str,
         start_with_indentation: bool,
     ) -> std::fmt::Result {
-        let mut lines = buffer.trim_end().lines().peekable();
+        let is_blank = |line: &str| line.chars().all(is_markdown_whitespace);
+        let mut lines = buffer
+            .trim_end_matches(is_markdown_whitespace)
+            .lines()
+            .peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
-            let is_next_empty = lines
-                .peek()
-                .map(|l| l.trim().is_empty())
-                .unwrap_or_default();
+            let is_next_empty = lines.peek().map(|l| is_blank(l)).unwrap_or_default();
 
             if start_with_indentation {
-                self.write_indentation(line.trim().is_empty())?;
+                self.write_indentation(is_blank(line))?;
             }
 
-            if !line.trim().is_empty() {
+            if !is_blank(line) {
                 self.write_str(line)?;
             }
 
@@ -907,7 +909,7 @@ where
 
         let trailing_newline = self
             .input
-            .rfind(|c: char| !c.is_whitespace())
+            .rfind(|c: char| !is_markdown_whitespace(c))
             .is_some_and(|start| self.input[start..].contains(['\r', '\n']));
 
         self.rewrite_final_reference_links().map(|mut output| {
@@ -954,7 +956,7 @@ where
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
                 }
-                let full_header = self.input[range].trim();
+                let full_header = self.input[range].trim_matches(is_markdown_whitespace);
                 let header = Header::new(
                     // Take the indentaiton so that we don't accidentally write indentation into the
                     // headers for setext headers that may span multiple lines.
diff --git a/src/header.rs b/src/header.rs
index 25379ae..994fd5e 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,5 +1,5 @@
 use crate::escape::needs_escape;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_markdown_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
 use std::borrow::Cow;
@@ -88,7 +88,7 @@ impl<'i> Header<'i> {
                     .map(|marker| {
                         marker
                             .trim_start_matches(|c: char| c.is_whitespace() || c == '>')
-                            .trim_end()
+                            .trim_end_matches(is_markdown_whitespace)
                     })
             } else {
                 None
@@ -103,7 +103,7 @@ impl<'i> Header<'i> {
         let has_closing_sequence = full_header
             .trim_start_matches('#')
             .trim_end_matches('#')
-            .trim_end()
+            .trim_end_matches(is_markdown_whitespace)
             .ends_with('#');
 
         let kind = match (level, header_marker) {
@@ -154,7 +154,8 @@ impl<'i> Header<'i> {
     pub(super) fn into_parts(
         mut self,
     ) -> Result<(String, Vec<Cow<'static, str>>), std::fmt::Error> {
-        if matches!(self.kind(), HeaderKind::Atx(_)) && self.buffer.trim_end().ends_with('#') {
+        let text = self.buffer.trim_end_matches(is_markdown_whitespace);
+        if matches!(self.kind(), HeaderKind::Atx(_)) && text.ends_with('#') {
             if self.has_attributes() {
                 // Make sure we properly escape trailing `#` at the end of the header.
                 // Otherwise our formatting might not be idempotent
@@ -172,9 +173,12 @@ impl<'i> Header<'i> {
     }
 
     fn remove_trailing_hashtags(&mut self) {
-        let snippet = self.buffer.trim_end().trim_end_matches('#');
+        let snippet = self
+            .buffer
+            .trim_end_matches(is_markdown_whitespace)
+            .trim_end_matches('#');
         let is_escaped = sequence_ends_on_escape(snippet);
-        let no_spaces = !snippet.ends_with(char::is_whitespace);
+        let no_spaces = !snippet.ends_with(is_markdown_whitespace);
         if is_escaped || (no_spaces && !snippet.is_empty()) {
             return;
         }
@@ -186,7 +190,7 @@ impl<'i> Header<'i> {
 
         while self
             .buffer
-            .ends_with(|c: char| c.is_whitespace() || c == '#')
+            .ends_with(|c: char| is_markdown_whitespace(c) || c == '#')
         {
             self.buffer.pop();
         }
@@ -195,7 +199,7 @@ impl<'i> Header<'i> {
     // Note: Should only call this after we determine that we need to escape trailing hashtags
     fn escape_trailing_hashtag(&mut self) {
         // Get rid of any trailing whitespace after the `#`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_markdown_whitespace) {
             self.buffer.pop();
         }
 
@@ -232,7 +236,7 @@ impl<'i> Header<'i> {
 
     fn escape_trailing_empty_attribute_brackets(&mut self) {
         // Get rid of any trailing whitespace after the `{}`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_markdown_whitespace) {
             self.buffer.pop();
         }
 
@@ -249,7 +253,7 @@ impl<'i> Header<'i> {
         let mut iter = self.buffer[last_line_start_index..]
             .chars()
             .rev()
-            .filter(|c| !c.is_whitespace())
+            .filter(|c| !is_markdown_whitespace(*c))
             .take(2);
 
         let has_empty_attr_brackets =
diff --git a/src/utils.rs b/src/utils.rs
index e6e54ab..d3db484 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -6,6 +6,11 @@ use unicode_width::UnicodeWidthStr;
 static SPACES: &str = "                                                                           ";
 const SPACE: char = ' ';
 
+/// White space as far as Markdown is concerned. Any other Unicode white space is just text.
+pub(crate) fn is_markdown_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\u{b}' | '\u{c}' | '\r')
+}
+
 /// Count the number of trailing spaces at the end of input
 pub(crate) fn count_trailing_spaces(s: &str) -> usize {
     s.chars().rev().take_while(|c| *c == SPACE).count()
-- 
2.43.0


From de67522c4f5fa5277f9c17bcaa1ea445a9ff908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 49/65] fix: don't escape markers that are followed by Unicode
 white space

Only Markdown's own white space can follow the marker of a heading, a list
or an underline.
---
 src/escape.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index f296cb6..ac0cf71 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -1,5 +1,6 @@
 use super::formatter::FormatState;
 use crate::list::UnorderedListMarker;
+use crate::utils::is_markdown_whitespace;
 use pulldown_cmark::Event;
 
 impl<'i, I> FormatState<'i, '_, I>
@@ -53,7 +54,7 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
                 continue;
             }
 
-            if c.is_whitespace() {
+            if is_markdown_whitespace(c) {
                 whitespace_after_marker = true;
             }
 
@@ -65,7 +66,10 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
         leading_marker_count <= max_marker_count && (whitespace_after_marker || empty_marker())
     };
     let is_atx_heading = || marker_with_optional_trailing_space(6, '#');
-    let is_setext_heading = |value: u8| input.trim_end().bytes().all(|b| b == value);
+    let is_setext_heading = |value: u8| {
+        let marker = input.trim_end_matches(is_markdown_whitespace);
+        marker.bytes().all(|b| b == value)
+    };
     let is_unordered_list_marker = |value: char| marker_with_optional_trailing_space(1, value);
     let is_thematic_break = |value: u8| {
         input.bytes().all(|b| b == value || b == b' ')
-- 
2.43.0


From e115ca3e8e320f27f3fe1c7ac26e3666447dc5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 50/65] fix: don't trim Unicode white space off link texts,
 labels and destinations

---
 src/links.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 690aa3b..abcb7df 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -1,5 +1,7 @@
 use super::formatter::FormatState;
-use crate::utils::{count_newlines, is_char_esacped, sequence_ends_on_escape, split_lines};
+use crate::utils::{
+    count_newlines, is_char_esacped, is_markdown_whitespace, sequence_ends_on_escape, split_lines,
+};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::Event;
 use std::borrow::Cow;
@@ -31,7 +33,7 @@ impl Write for LinkWriter {
         let ends_with_newline = input.ends_with('\n');
         if self.is_empty() {
             // While the buffer is empty trim leading whitespace
-            input = s.trim_start();
+            input = s.trim_start_matches(is_markdown_whitespace);
             if input.starts_with('^') {
                 self.buffer.push('\\');
             }
@@ -68,7 +70,7 @@ impl LinkWriter {
 
     pub(crate) fn into_buffer(mut self) -> String {
         // Remove any trailing whitespace from the buffer
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_markdown_whitespace) {
             self.buffer.pop();
         }
 
@@ -185,12 +187,13 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']');
     // +1 to move past '['
     // -1 to move before ']'
-    let label = input[start + 1..end - 1].trim();
+    let label = input[start + 1..end - 1].trim_matches(is_markdown_whitespace);
 
     // The parser also allows `[foo]\[bar]`
     match input.rsplit_once("]\\[") {
         Some((text, escaped_label)) if end == text.len() + 1 => {
-            escaped_label.trim_end_matches(']').trim()
+            let label = escaped_label.trim_end_matches(']');
+            label.trim_matches(is_markdown_whitespace)
         }
         _ => label,
     }
@@ -203,7 +206,7 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
     let inline_url = input
         .strip_prefix("](")
         .and_then(|input| input.strip_suffix(')'))?
-        .trim();
+        .trim_matches(is_markdown_whitespace);
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
@@ -240,7 +243,7 @@ fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
         &url[1..url.len() - 1]
     } else {
-        url.trim()
+        url.trim_matches(is_markdown_whitespace)
     }
 }
 
@@ -294,9 +297,11 @@ impl<'a> LinkReferenceDefinitionBuilder<'a> {
     fn set_label(&mut self, label: Cow<'a, str>, range: std::ops::Range<usize>, offset: usize) {
         let mut label_parts = self.label.take().unwrap_or(LinkLines::new());
         let offset_range = (offset + range.start)..(offset + range.end);
-        let is_start = label_parts.iter().all(|text| text.trim().is_empty());
-        if is_start && label.trim_start().starts_with('^') {
-            let label = label.trim_start();
+        let is_blank = |text: &str| text.chars().all(is_markdown_whitespace);
+        let is_start = label_parts.iter().all(is_blank);
+        let text = label.trim_start_matches(is_markdown_whitespace);
+        if is_start && text.starts_with('^') {
+            let label = text;
             let mut new_label = String::with_capacity(label.len() + 1);
             new_label.push('\\');
             new_label.push_str(label);
@@ -520,7 +525,8 @@ impl<'a> LinkLines<'a> {
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
         // right now everything gets formatted on a single line.
         let mut iter = self.iter().peekable();
-        while let Some(text) = iter.next().map(|t| t.trim()) {
+        while let Some(text) = iter.next() {
+            let text = text.trim_matches(is_markdown_whitespace);
             if text.is_empty() {
                 continue;
             }
@@ -532,7 +538,7 @@ impl<'a> LinkLines<'a> {
                 write!(buffer, "{text}")?;
             }
         }
-        let text = buffer.trim();
+        let text = buffer.trim_matches(is_markdown_whitespace);
         // Escape this so that the next formatting run doesn't
         // interpret the closing `]` as `\]`.
         let escape = if sequence_ends_on_escape(text) {
@@ -673,7 +679,7 @@ fn parse_link_reference_definition<'i>(
                 };
                 // FIXME(ytmimi) Assuming that `>` indicates a blockquote, but maybe there's a
                 // chance that its part of the title or label
-                if !next_is_important && (c.is_whitespace() || c == '>') {
+                if !next_is_important && (is_markdown_whitespace(c) || c == '>') {
                     continue;
                 }
                 start = idx;
@@ -776,7 +782,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                if c.is_whitespace() || c == '>' {
+                if is_markdown_whitespace(c) || c == '>' {
                     continue;
                 }
 
@@ -834,7 +840,7 @@ fn parse_link_reference_definition<'i>(
                 break;
             }
 
-            if !c.is_whitespace() {
+            if !is_markdown_whitespace(c) {
                 builder.remove_false_title();
                 parsed_until = idx;
                 break;
-- 
2.43.0


From 549eb71dd53ccdb5928be5c259140c3d45542996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 51/65] fix: keep the white space at the end of the last line
 of a fenced code block

---
 src/formatter.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 88e19c0..34d1174 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -454,12 +454,15 @@ where
         &mut self,
         buffer: &str,
         start_with_indentation: bool,
+        is_fenced_code_block: bool,
     ) -> std::fmt::Result {
         let is_blank = |line: &str| line.chars().all(is_markdown_whitespace);
-        let mut lines = buffer
-            .trim_end_matches(is_markdown_whitespace)
-            .lines()
-            .peekable();
+        // Only blank lines can be removed from the end of a fenced code block
+        let mut end = buffer.trim_end_matches(is_markdown_whitespace).len();
+        if is_fenced_code_block {
+            end += buffer[end..].find('\n').unwrap_or(buffer.len() - end);
+        }
+        let mut lines = buffer[..end].lines().peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
             let is_next_empty = lines.peek().map(|l| is_blank(l)).unwrap_or_default();
@@ -656,13 +659,13 @@ where
     ) -> std::fmt::Result {
         let code = self.format_code_buffer(info_string, unformatted_code);
 
-        if code.trim().is_empty() && info_string.is_some() {
+        if code.chars().all(is_markdown_whitespace) && info_string.is_some() {
             // The code fence is empty, and a newline should already ahve been added
             // when pushing the opening code fence, so just return.
             return Ok(());
         }
 
-        self.join_with_indentation(&code, info_string.is_some())?;
+        self.join_with_indentation(&code, info_string.is_some(), info_string.is_some())?;
 
         if info_string.is_some() {
             // In preparation for the closing code fence write a newline.
@@ -1403,7 +1406,7 @@ where
                 let Some(MarkdownWriter::Paragraph(p)) = self.writers.pop() else {
                     unreachable!("Should have popped a MarkdownWriter::Paragraph")
                 };
-                self.join_with_indentation(&p.into_buffer(), false)?;
+                self.join_with_indentation(&p.into_buffer(), false, false)?;
             }
             TagEnd::Heading(_) => {
                 debug_assert!(matches!(
@@ -1433,7 +1436,7 @@ where
                     }
                 }
                 self.indentation = indentation;
-                self.join_with_indentation(&buffer, false)?;
+                self.join_with_indentation(&buffer, false, false)?;
             }
             TagEnd::BlockQuote(..) => {
                 if let Some(last) = self.indentation.last_mut() {
@@ -1566,7 +1569,7 @@ where
                 if !buffer.is_empty() {
                     writeln!(self)?;
                     self.indentation.push(footnote_indent);
-                    self.join_with_indentation(&buffer, true)?;
+                    self.join_with_indentation(&buffer, true, false)?;
                     self.indentation.pop();
                 }
 
@@ -1710,7 +1713,7 @@ where
                 let Some(MarkdownWriter::Table(t)) = self.writers.pop() else {
                     unreachable!("Should have popped a MarkdownWriter::Table")
                 };
-                self.join_with_indentation(&t.format()?, false)?;
+                self.join_with_indentation(&t.format()?, false, false)?;
                 let popped_indentation = self.indentation.pop().expect("we added `|` in start_tag");
                 debug_assert_eq!(popped_indentation, "|");
             }
-- 
2.43.0


From 88887956b6c66bcdc52bebe31854977f55118fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 52/65] fix: don't turn text into a link reference definition
 by wrapping it

---
 src/paragraph.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index f7d31c2..4186037 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,10 +1,10 @@
 use crate::escape::needs_escape;
 use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_markdown_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
-use pulldown_cmark::{Event, LinkType, Tag};
+use pulldown_cmark::{Event, LinkType, Parser, Tag};
 use regex::Regex;
 use std::fmt::Write;
 use std::sync::OnceLock;
@@ -205,11 +205,19 @@ impl Paragraph {
             .word_separator(textwrap::WordSeparator::Custom(split_words))
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
-        let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
+        // Keep the start of the paragraph if it would turn into a link reference definition
+        let (start, rest) = rewrite_buffer.split_at(link_definition_end(&rewrite_buffer));
+        let start_of_line = start.rfind('\n').map_or(0, |idx| idx + 1);
+        output_buffer.push_str(&start[..start_of_line]);
+        let mut indent = &start[start_of_line..];
+
+        let mut split_on_hard_breaks = rest.split(MARKDOWN_HARD_BREAK).peekable();
 
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
-            output_buffer.push_str(&textwrap::fill(text, wrap_options.clone()));
+            let wrap_options = wrap_options.clone().initial_indent(indent);
+            output_buffer.push_str(&textwrap::fill(text, wrap_options));
+            indent = "";
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
             }
@@ -219,6 +227,28 @@ impl Paragraph {
     }
 }
 
+/// Find the end of the text that would be a link reference definition if it was on lines of its own.
+/// The text can't be wrapped up until there.
+fn link_definition_end(text: &str) -> usize {
+    if !text.starts_with('[') || !text.contains("]:") {
+        return 0;
+    }
+
+    let is_link_definition = |idx: &usize| Parser::new(&text[..*idx]).next().is_none();
+    let spaces = text.rmatch_indices(' ').map(|(idx, _)| idx);
+    spaces
+        // Definitions end on a destination, or on the quotes or parentheses of a title.
+        .filter(|idx| {
+            let definition = text[..*idx].trim_end();
+            let start_of_last_word = definition.rfind(is_markdown_whitespace).unwrap_or(0);
+            definition.ends_with(['"', '\'', ')', '>'])
+                || definition[..start_of_last_word].trim_end().ends_with(':')
+                || definition[start_of_last_word..].contains("]:")
+        })
+        .find(is_link_definition)
+        .map_or(0, |idx| idx + 1)
+}
+
 /// A first line that only contains an HTML tag would start an HTML block, so move the end of the
 /// tag to the next line.
 fn break_up_html_tag(mut text: String) -> String {
-- 
2.43.0


From 30cbc63fee7a90292e9ce17d8b94224465406fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 53/65] fix: don't wrap text next to tabs, or where a marker is
 followed by a tab

---
 src/paragraph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4186037..684576d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -356,6 +356,12 @@ fn can_break_between(word: &str, next: &str) -> bool {
         return false;
     }
 
+    // Tabs that are next to a newline aren't part of the text
+    let is_tab = |c: char| c != ' ' && is_markdown_whitespace(c);
+    if word.ends_with(is_tab) || next.starts_with(is_tab) {
+        return false;
+    }
+
     // Link destinations in angle brackets can't contain newlines
     if word.rfind("](<").is_some_and(|i| !word[i..].contains('>')) {
         return false;
@@ -394,6 +400,9 @@ fn starts_with_code_fence(s: &str) -> bool {
 
 /// Check if a word at the start of a line could be interpreted as some other markdown construct.
 fn could_interrupt_paragraph(word: &str) -> bool {
+    // Words only get separated by spaces. Markers can also be followed by a tab.
+    let word = word.split(is_markdown_whitespace).next().unwrap_or(word);
+
     let is_atx_header = || word.len() <= 6 && word.chars().all(|c| c == '#');
 
     let is_html_block = || {
-- 
2.43.0


From 710549b7727cb8745795226e93f5c45804e140b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 54/65] fix: don't turn text into the title of the previous
 link reference definition by wrapping it

Also, only the first line of text is wrapped differently when the start of a
paragraph needs to be kept.
---
 src/formatter.rs | 11 +++++++++--
 src/paragraph.rs | 49 +++++++++++++++++++++++++++++++++---------------
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 34d1174..29c0396 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -931,6 +931,7 @@ where
     fn start_tag(&mut self, tag: Tag<'i>, range: Range<usize>) -> std::fmt::Result {
         // These all come after we're already in the context of a Table.
         // I don't think it's possible for a reference link definition to come before these tags.
+        let last_position = self.last_position;
         if !matches!(tag, Tag::TableHead | Tag::TableRow | Tag::TableCell) {
             let reference_definition_range = self.last_position..range.start;
             self.rewrite_reference_link_definitions(&reference_definition_range)?;
@@ -938,8 +939,9 @@ where
 
         match tag {
             Tag::Paragraph => {
+                let newlines = self.count_newlines(&range);
+                let after_link_definition = newlines < 2 && last_position != self.last_position;
                 if self.needs_indent {
-                    let newlines = self.count_newlines(&range);
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
                 }
@@ -950,7 +952,12 @@ where
                         .map(|w| w.saturating_sub(self.indentation_len()));
                     (width, c.reflow_text())
                 });
-                let paragraph = Paragraph::new(max_width, should_reflow_text, capacity);
+                let paragraph = Paragraph::new(
+                    max_width,
+                    should_reflow_text,
+                    after_link_definition,
+                    capacity,
+                );
                 self.writers.push(paragraph.into());
             }
             Tag::Heading { .. } => {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 684576d..899d818 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -19,6 +19,8 @@ pub(super) struct Paragraph {
     buffer: String,
     max_width: Option<usize>,
     should_reflow_text: bool,
+    /// Does a link reference definition end on the line before this paragraph?
+    after_link_definition: bool,
 }
 
 impl WriteContext<'_> for Paragraph {
@@ -155,11 +157,17 @@ impl Write for Paragraph {
 }
 
 impl Paragraph {
-    pub(super) fn new(max_width: Option<usize>, should_reflow_text: bool, capacity: usize) -> Self {
+    pub(super) fn new(
+        max_width: Option<usize>,
+        should_reflow_text: bool,
+        after_link_definition: bool,
+        capacity: usize,
+    ) -> Self {
         Self {
             max_width,
             buffer: String::with_capacity(capacity),
             should_reflow_text,
+            after_link_definition,
         }
     }
 
@@ -206,18 +214,23 @@ impl Paragraph {
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         // Keep the start of the paragraph if it would turn into a link reference definition
-        let (start, rest) = rewrite_buffer.split_at(link_definition_end(&rewrite_buffer));
-        let start_of_line = start.rfind('\n').map_or(0, |idx| idx + 1);
-        output_buffer.push_str(&start[..start_of_line]);
-        let mut indent = &start[start_of_line..];
+        let link_definition_end = link_definition_end(&rewrite_buffer, self.after_link_definition);
+        let (start, mut rest) = rewrite_buffer.split_at(link_definition_end);
+        if !start.is_empty() {
+            let start_of_line = start.rfind('\n').map_or(0, |idx| idx + 1);
+            let (start, indent) = start.split_at(start_of_line);
+            let line = rest.lines().next().unwrap_or_default().trim_end_matches(' ');
+            let line_options = wrap_options.clone().initial_indent(indent);
+            output_buffer.push_str(start);
+            output_buffer.push_str(&textwrap::fill(line, line_options));
+            rest = &rest[line.len()..];
+        }
 
         let mut split_on_hard_breaks = rest.split(MARKDOWN_HARD_BREAK).peekable();
 
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
-            let wrap_options = wrap_options.clone().initial_indent(indent);
-            output_buffer.push_str(&textwrap::fill(text, wrap_options));
-            indent = "";
+            output_buffer.push_str(&textwrap::fill(text, wrap_options.clone()));
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
             }
@@ -227,14 +240,20 @@ impl Paragraph {
     }
 }
 
-/// Find the end of the text that would be a link reference definition if it was on lines of its own.
-/// The text can't be wrapped up until there.
-fn link_definition_end(text: &str) -> usize {
-    if !text.starts_with('[') || !text.contains("]:") {
-        return 0;
-    }
+/// Find the end of the text that would be a link reference definition, or the title of the link
+/// reference definition that comes before it, if it was on lines of its own. The text can't be
+/// wrapped up until there.
+fn link_definition_end(text: &str, after_link_definition: bool) -> usize {
+    let definition = match text.chars().next() {
+        Some('[') if text.contains("]:") => "",
+        Some('"' | '\'' | '(') if after_link_definition => "[label]: url\n",
+        _ => return 0,
+    };
 
-    let is_link_definition = |idx: &usize| Parser::new(&text[..*idx]).next().is_none();
+    let is_link_definition = |idx: &usize| {
+        let text = format!("{definition}{}", &text[..*idx]);
+        Parser::new(&text).next().is_none()
+    };
     let spaces = text.rmatch_indices(' ').map(|(idx, _)| idx);
     spaces
         // Definitions end on a destination, or on the quotes or parentheses of a title.
-- 
2.43.0


From 0d97c41b1e72ce31b0ec00f3b7546fe89b455c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 55/65] fix: don't turn text on lines that are indented too far
 into other blocks

Lines of a paragraph that are indented by four or more spaces are text, no
matter what they start with. Removing the indentation turned markers of
ordered lists, labels of footnote definitions, HTML tags and code fences into
blocks.
---
 src/escape.rs    |  48 ++++++++++
 src/formatter.rs | 230 +++++++++++++++++++++++++++++++++++++++--------
 src/html.rs      |  98 ++++++++++----------
 src/links.rs     |   5 ++
 src/paragraph.rs |  55 ++++++++----
 src/utils.rs     |  15 ++++
 6 files changed, 349 insertions(+), 102 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index ac0cf71..90c5dc8 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -147,6 +147,49 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Check if the line is a code fence that's made up of backticks. The info string that comes after
+/// the fence can't contain any backticks.
+pub(crate) fn is_backtick_fence(line: &str) -> bool {
+    line.starts_with("```") && !line.trim_start_matches('`').contains('`')
+}
+
+/// Find the delimiter of an ordered list's marker.
+pub(crate) fn ordered_list_delimiter(input: &str) -> Option<usize> {
+    let delimiter = input.find(|c: char| !c.is_ascii_digit())?;
+    let content = input[delimiter..].strip_prefix(['.', ')'])?;
+    let is_marker = (1..=9).contains(&delimiter)
+        && (content.is_empty() || content.starts_with(is_markdown_whitespace));
+
+    is_marker.then_some(delimiter)
+}
+
+/// Only ordered lists that start at 1, and where the first item isn't empty can interrupt a
+/// paragraph.
+pub(crate) fn can_interrupt_paragraph(input: &str, delimiter: usize) -> bool {
+    let (number, rest) = input.split_at(delimiter);
+    number.trim_start_matches('0') == "1" && rest.len() > 1
+}
+
+/// Check if a line that starts with the input starts a footnote definition
+pub(crate) fn starts_footnote_definition(input: &str) -> bool {
+    let Some(label) = input.strip_prefix("[^") else {
+        return false;
+    };
+
+    let mut is_escaped = false;
+    for (i, c) in label.char_indices() {
+        match c {
+            _ if is_escaped => is_escaped = false,
+            '\\' => is_escaped = true,
+            '[' => return false,
+            ']' => return i > 0 && label[i..].starts_with("]:"),
+            _ => {}
+        }
+    }
+
+    false
+}
+
 /// Represents text that looks like another Markdown construct that the formatter should escape
 /// in order to preserve the meaning of the input after formatting.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -181,6 +224,11 @@ impl EscapeKind {
         )
     }
 
+    /// Check if this doesn't depend on the lines that come before
+    pub(crate) fn is_single_line(&self) -> bool {
+        matches!(self, Self::SingleLine(_))
+    }
+
     /// Check if we need to escape multiple characters
     pub(crate) fn multi_character_escape(&self) -> bool {
         matches!(
diff --git a/src/formatter.rs b/src/formatter.rs
index 29c0396..3e6b0f6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,16 +12,20 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
+use crate::escape::{
+    can_interrupt_paragraph, is_backtick_fence, needs_escape, ordered_list_delimiter,
+    starts_footnote_definition,
+};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
-use crate::html::starts_with_html_block_identifier;
+use crate::html::{starts_html_block, starts_with_declaration};
 use crate::links::{LinkReferenceDefinition, LinkWriter, parse_link_reference_definitions};
 use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, count_trailing_spaces, get_spaces, is_markdown_whitespace,
-    sequence_ends_on_escape, split_lines,
+    count_newlines, count_trailing_spaces, get_spaces, is_markdown_whitespace, is_over_indented,
+    sequence_ends_on_escape, split_lines, strip_blockquote_marker,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -145,6 +149,8 @@ where
     reference_links: Vec<LinkReferenceDefinition<'i>>,
     /// next Start event should push indentation
     needs_indent: bool,
+    /// The end of the link reference definition that we've written last
+    last_link_definition_end: Option<usize>,
     last_position: usize,
     // Last event emitted from the inner iterator
     last_event: Option<I::Item>,
@@ -215,6 +221,32 @@ where
             .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
     }
 
+    /// Check if a paragraph starts with a line that's indented too far to be interpreted as anything
+    /// other than text. That's only possible right after a link reference definition.
+    fn starts_over_indented(&self, start: usize) -> bool {
+        let starts_block = self.last_event.as_ref().is_some_and(|(e, _)| {
+            matches!(
+                e,
+                Event::Start(Tag::Paragraph | Tag::Item | Tag::FootnoteDefinition(_))
+            )
+        });
+        let after_link_definition = self.last_link_definition_end.is_some_and(|end| {
+            let line_start = self.input.get(end..start).unwrap_or_default();
+            let is_indentation = |c: char| c == '>' || is_markdown_whitespace(c);
+            count_newlines(line_start) == 1 && line_start.chars().all(is_indentation)
+        });
+        starts_block && after_link_definition && is_over_indented(&self.input[..start])
+    }
+
+    /// Keep the indentation of a line that's indented too far to be interpreted as anything other
+    /// than text, when the line doesn't start with text that we could escape.
+    fn write_over_indentation(&mut self, event: &Event<'i>, start: usize) -> std::fmt::Result {
+        if is_over_indented(&self.input[..start]) && !self.in_link_or_image() {
+            write_context!(self, event, "    ")?;
+        }
+        Ok(())
+    }
+
     /// check if we're in a blockquote
     pub(crate) fn in_blockquote(&self) -> bool {
         self.nested_context
@@ -310,6 +342,29 @@ where
         }
     }
 
+    /// Check if there's a backtick in the paragraph that we're writing.
+    fn paragraph_contains_backtick(&self) -> bool {
+        let is_link_text = |w: &&MarkdownWriter<'_>| matches!(w, MarkdownWriter::Link(_));
+        let links = self.writers.iter().rev().take_while(is_link_text).count();
+        let buffers = self.writers.iter().rev().map(|w| match w {
+            MarkdownWriter::Link(l) => Some(l.buffer()),
+            MarkdownWriter::Paragraph(p) => Some(p.buffer()),
+            MarkdownWriter::Header(h) => Some(h.buffer()),
+            MarkdownWriter::FootnoteDefinition(f) => Some(f.buffer()),
+            _ => None,
+        });
+        buffers
+            .chain([Some(self.rewrite_buffer.as_str())])
+            .take(links + 1)
+            .flatten()
+            .any(|buffer| {
+                buffer
+                    .rsplit("\n\n")
+                    .next()
+                    .is_some_and(|p| p.contains('`'))
+            })
+    }
+
     /// Check if the current buffer ends on an unescaped backslash
     fn current_buffer_ends_on_escape(&self) -> bool {
         self.current_buffer_text().is_some_and(|buffer| {
@@ -428,6 +483,7 @@ where
             self.write_newlines(newlines)?;
             link_def.write(self)?;
             self.last_position = link_range.end;
+            self.last_link_definition_end = Some(link_range.end);
             self.needs_indent = true;
         }
         Ok(())
@@ -487,18 +543,22 @@ where
     }
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
+        const INDENT_CHARS: [char; 2] = [' ', '\t'];
         let mut output = s;
         for indent in self.full_indentation() {
-            if indent.starts_with('>') {
-                output = output.trim_start();
-                output = output
-                    .strip_prefix('>')
-                    .map(|o| o.strip_prefix(char::is_whitespace).unwrap_or(o))
-                    .unwrap_or(output);
-            } else {
+            if !indent.starts_with('>') {
                 for _ in 0..indent.len() {
-                    output = output.strip_prefix(char::is_whitespace).unwrap_or(output);
+                    output = output.strip_prefix(INDENT_CHARS).unwrap_or(output);
                 }
+            } else if let Some(rest) = strip_blockquote_marker(output) {
+                output = rest;
+            } else if is_over_indented(
+                &output[..output.len() - output.trim_start_matches(INDENT_CHARS).len()],
+            ) {
+                // The line can't be interpreted as anything else if it keeps its indentation
+                return output;
+            } else {
+                output = output.trim_start_matches(INDENT_CHARS);
             }
         }
         output
@@ -509,12 +569,9 @@ where
         let mut input = s;
         for indent in self.full_indentation() {
             let rest = if indent.starts_with('>') {
-                input
-                    .trim_start()
-                    .strip_prefix('>')
-                    .map(|i| i.strip_prefix(char::is_whitespace).unwrap_or(i))
+                strip_blockquote_marker(input)
             } else {
-                (0..indent.len()).try_fold(input, |s, _| s.strip_prefix(char::is_whitespace))
+                (0..indent.len()).try_fold(input, |s, _| s.strip_prefix([' ', '\t']))
             };
             let Some(rest) = rest else {
                 return true;
@@ -528,6 +585,19 @@ where
     fn rewrite_multiline_event(&mut self, event: &Event<'i>, snippet: &'i str) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
         let ends_with_newline = snippet.ends_with('\n');
+        let is_declaration =
+            matches!(event, Event::InlineHtml(html) if starts_with_declaration(html));
+        // What's left of the parsed text, without any of the leading indentation.
+        let mut parsed_text = match event {
+            // The first `>` is the end of a declaration
+            _ if is_declaration => Some(snippet),
+            Event::Code(text) => Some(text.as_ref()),
+            // The parser keeps the indentation of comments, declarations and instructions
+            Event::InlineHtml(html) if !html.starts_with("<!") && !html.starts_with("<?") => {
+                Some(html.as_ref())
+            }
+            _ => None,
+        };
 
         let mut iter = split_lines(snippet).enumerate().peekable();
 
@@ -536,13 +606,17 @@ where
 
             // We want to trim leading indentation characters like `>`
             // and any non-space whitespace characters.
-            let line = if i == 0 {
+            let (line, is_lazy_continuation) = if i == 0 {
                 // Don't need to trim leading space from the first line. The assumption is
                 // that the event would start after any leading indentation.
-                s
+                (s, false)
             } else {
-                self.trim_leading_indentation(s)
+                let trimmed = self.trim_leading_indentation(s);
+                let line = parsed_text.map_or(trimmed, |t| find_line(t, s, trimmed, is_last));
+                let is_lazy = line.len() > trimmed.len() || self.is_lazy_continuation(s);
+                (line, is_lazy)
             };
+            parsed_text = parsed_text.and_then(|text| strip_line(text, line));
 
             let trailing_space_count = count_trailing_spaces(line);
             let trailing_spaces = get_spaces(trailing_space_count);
@@ -551,9 +625,10 @@ where
             // The first line always comes after the event's opening marker, and the closing marker
             // of a code span comes right after it's last line. The other lines of a code span are
             // only going to be parsed differently if they're now nested in another block.
-            let needs_escape = if i == 0 {
+            let indentation = &line[..line.len() - line.trim_start_matches([' ', '\t']).len()];
+            let needs_escape = if i == 0 || is_over_indented(indentation) {
                 None
-            } else if matches!(event, Event::Code(_)) && !self.is_lazy_continuation(s) {
+            } else if matches!(event, Event::Code(_)) && !is_lazy_continuation {
                 None
             } else if is_last && matches!(event, Event::Code(_)) {
                 self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
@@ -581,7 +656,10 @@ where
                 }
             }
 
-            if !is_last || ends_with_newline {
+            if !is_last && is_declaration && self.in_blockquote() {
+                // The `>` of the blockquote would end the declaration
+                self.write_event_str(event, " ")?;
+            } else if !is_last || ends_with_newline {
                 writeln_context!(self, event)?;
             }
         }
@@ -606,6 +684,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            last_link_definition_end: None,
             last_event: None,
             formatter,
         }
@@ -743,25 +822,26 @@ where
                         self.needs_indent = false;
                     }
 
-                    // The info string of a backtick code fence can't contain any backticks
-                    let is_backtick_info_string = || {
+                    // Lines that are indented too far can also follow a link reference definition
+                    let starts_block = self.starts_over_indented(range.start);
+                    let needs_escape = if starts_block {
                         let line = split_lines(&self.input[range.start..]).next();
-                        line.is_some_and(|l| l.trim_start_matches('`').contains('`'))
-                    };
-                    let needs_escape = match self.needs_escape(text, false) {
-                        Some(kind) if kind.is_backtick_fence() && is_backtick_info_string() => None,
-                        needs_escape => needs_escape,
+                        line.and_then(needs_escape).filter(|kind| {
+                            kind.is_single_line() && !matches!(line, Some("-" | "+" | "*"))
+                        })
+                    } else {
+                        self.needs_escape(text, false)
                     };
+                    let needs_escape = needs_escape.filter(|kind| {
+                        let line = split_lines(&self.input[range.start..]).next();
+                        !kind.is_backtick_fence() || line.is_some_and(is_backtick_fence)
+                    });
 
                     let could_be_interpreted_as_html =
                         |t: &str, state: &mut FormatState<'i, 'm, I>| -> bool {
-                            if state.last_was_line_break()
+                            if (state.last_was_line_break() || starts_block)
                                 && t == "<"
-                                && matches!(
-                                    state.peek(),
-                                    Some(Event::Text(t))
-                                        if starts_with_html_block_identifier(t)
-                                )
+                                && starts_html_block(&state.input[last_position..])
                             {
                                 return true;
                             }
@@ -801,9 +881,38 @@ where
                             sequence_ends_on_escape(last_line)
                         };
 
+                    // An escaped backtick would still end a code span that another backtick starts
+                    let is_fence = needs_escape.is_some_and(|kind| kind.is_backtick_fence());
+                    let needs_escape = if is_fence && self.paragraph_contains_backtick() {
+                        self.write_over_indentation(&event, range.start)?;
+                        None
+                    } else {
+                        needs_escape
+                    };
+
+                    // Only lines that are indented can start with the marker of an ordered list
+                    let ordered_list_delimiter = ordered_list_delimiter(text).filter(|delimiter| {
+                        let starts_line = starts_block || self.last_was_line_break();
+                        starts_line && can_interrupt_paragraph(text, *delimiter)
+                    });
+                    // or with the label of a footnote definition. An escape could unbalance brackets
+                    if (starts_block || self.last_was_line_break())
+                        && starts_footnote_definition(&self.input[range.start..])
+                    {
+                        self.write_over_indentation(&event, range.start)?;
+                    }
+
                     match needs_escape {
+                        _ if ordered_list_delimiter.is_some() && !starts_with_escape => {
+                            let (number, rest) =
+                                text.split_at(ordered_list_delimiter.unwrap_or_default());
+                            write_context!(self, &event, "{number}")?;
+                            write_context!(self, Escape, "\\{rest}")?;
+                        }
                         Some(escape_kind)
-                            if escape_kind.multi_character_escape() && !starts_with_escape =>
+                            if escape_kind.multi_character_escape()
+                                && !starts_with_escape
+                                && (!starts_block || escape_kind.is_backtick_fence()) =>
                         {
                             let marker = escape_kind.marker();
                             for c in text.chars() {
@@ -832,6 +941,12 @@ where
                 }
                 Event::Code(_) => {
                     let snippet = &self.input[range.clone()];
+                    let starts_line =
+                        self.last_was_line_break() || self.starts_over_indented(range.start);
+                    let first_line = split_lines(snippet).next().unwrap_or_default();
+                    if starts_line && is_backtick_fence(first_line) {
+                        self.write_over_indentation(&event, range.start)?;
+                    }
                     if count_newlines(snippet) > 0 {
                         let snippet = snippet.trim_matches('`');
                         // write the opening and closing markers separately so they aren't escaped.
@@ -844,6 +959,11 @@ where
                 }
                 Event::InlineHtml(_) => {
                     let snippet = &self.input[range.clone()];
+                    let starts_line =
+                        self.last_was_line_break() || self.starts_over_indented(range.start);
+                    if starts_line && starts_html_block(&snippet[1..]) {
+                        self.write_over_indentation(&event, range.start)?;
+                    }
                     self.rewrite_multiline_event(&event, snippet)?;
                 }
                 Event::SoftBreak => {
@@ -892,7 +1012,14 @@ where
                     self.check_needs_indent(&event)
                 }
                 Event::FootnoteReference(ref text) => {
-                    write_context!(self, &event, "[^{text}]")?;
+                    // Don't interpret the reference as the label of a footnote definition
+                    let starts_line =
+                        self.last_was_line_break() || self.starts_over_indented(range.start);
+                    if starts_line && self.input[range.end..].starts_with(':') {
+                        write_context!(self, &event, "[^{text}]\\")?;
+                    } else {
+                        write_context!(self, &event, "[^{text}]")?;
+                    }
                 }
                 Event::TaskListMarker(done) => {
                     if done {
@@ -1374,7 +1501,8 @@ where
                 }
 
                 let after_list = matches!(self.last_event, Some((Event::End(TagEnd::List(_)), _)));
-                let is_indented = matches!(self.peek(), Some(Event::Text(t)) if t.trim().is_empty());
+                let is_indented =
+                    matches!(self.peek(), Some(Event::Text(t)) if t.trim().is_empty());
                 if after_list && is_indented {
                     // Skip the indentation of the first line. Depending on the indentation of the
                     // formatted list the HTML block could become part of the last list item.
@@ -1801,6 +1929,32 @@ fn rewrite_marker_with_limit<W: std::fmt::Write>(
     }
 }
 
+/// Remove the next line of the parsed text of a code span or an inline HTML tag.
+fn strip_line<'t>(parsed_text: &'t str, line: &str) -> Option<&'t str> {
+    let line = line.trim_matches(is_markdown_whitespace);
+    let text = parsed_text.trim_start_matches(is_markdown_whitespace);
+    text.strip_prefix(line)
+}
+
+/// Find the part of a line that's in the parsed text of a code span or an inline HTML tag.
+///
+/// A `>` could be part of the text and not a blockquote's marker if the line is indented too far.
+fn find_line<'s>(parsed_text: &str, line: &'s str, trimmed: &'s str, is_last: bool) -> &'s str {
+    let is_next_line = |line: &str| {
+        strip_line(parsed_text, line)
+            .is_some_and(|rest| !is_last || rest.trim_matches(is_markdown_whitespace).is_empty())
+    };
+    if is_next_line(trimmed) {
+        return trimmed;
+    }
+    let indentation = &line[..line.len() - trimmed.len()];
+    indentation
+        .rmatch_indices('>')
+        .map(|(idx, _)| &line[line[..idx].trim_end_matches([' ', '\t']).len()..])
+        .find(|line| is_next_line(line))
+        .unwrap_or(trimmed)
+}
+
 /// Finds a marker in the source text and writes it to the buffer
 fn rewrite_marker<W: std::fmt::Write>(
     input: &str,
diff --git a/src/html.rs b/src/html.rs
index 689685f..3c3457d 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,25 +2,18 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "article",
     "header",
     "aside",
-    "hgroup",
     "blockquote",
     "hr",
     "iframe",
     "body",
     "li",
-    "map",
-    "button",
-    "object",
-    "canvas",
     "ol",
     "caption",
-    "output",
     "col",
     "p",
     "colgroup",
     "pre",
     "dd",
-    "progress",
     "div",
     "section",
     "dl",
@@ -28,7 +21,6 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "td",
     "dt",
     "tbody",
-    "embed",
     "textarea",
     "fieldset",
     "tfoot",
@@ -46,51 +38,67 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "h4",
     "h5",
     "h6",
-    "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
-/// Check if the given string starts with a well known HTML block tag name
-pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() || !s.is_ascii() {
-        return false;
-    }
-
-    // Combines HTML block condition 1 and 6
-    let is_html_block_identifier = |value: &str| {
-        HTML_BLOCK_TAG
-            .iter()
-            .any(|tag| tag.eq_ignore_ascii_case(value))
-    };
+/// Check if the given HTML starts with a declaration like `<!DOCTYPE html>`
+pub(crate) fn starts_with_declaration(html: &str) -> bool {
+    html.strip_prefix("<!")
+        .is_some_and(|declaration| declaration.starts_with(|c: char| c.is_ascii_alphabetic()))
+}
 
-    // line begins with the string <!--
-    let html_block_condition_2 = |value: &str| value.starts_with("!--");
+/// Check if a line that starts with `<` and the given text starts an HTML block, even if the line
+/// comes right after a paragraph.
+pub(crate) fn starts_html_block(tag: &str) -> bool {
+    if let Some(declaration) = tag.strip_prefix('!') {
+        return declaration.starts_with("--")
+            || declaration.starts_with("[CDATA[")
+            || declaration.starts_with(|c: char| c.is_ascii_alphabetic());
+    }
 
-    // line begins with the string <?.
-    let html_block_condition_3 = |value: &str| value.starts_with('?');
+    let name = tag.strip_prefix('/').unwrap_or(tag);
+    let name_end = name
+        .find(|c: char| !c.is_ascii_alphanumeric())
+        .unwrap_or(name.len());
+    let (name, rest) = name.split_at(name_end);
 
-    // line begins with the string <! followed by an ASCII letter.
-    let html_block_condition_4 = |value: &str| {
-        value
-            .strip_prefix('!')
-            .is_some_and(|t| t.starts_with(|c: char| c.is_ascii_alphabetic()))
+    let ends_name = |rest: &str| {
+        rest.is_empty() || rest.starts_with([' ', '\t', '\r', '\n', '>']) || rest.starts_with("/>")
     };
 
-    // line begins with the string <![CDATA[.
-    let html_block_condition_5 = |value: &str| {
-        // FIXME(ytmimi) because of the parser `![CDATA[` is broken into the following events:
-        // * Text("![")
-        // * Text("CDATA")
-        // * Text("[")
-        // which means that we'll be overly aggresive with escaping for now.
-        value.starts_with("![")
-    };
+    // These are only followed by text until their closing tag, which doesn't start a block
+    let is_raw_text = ["pre", "script", "style", "textarea"]
+        .iter()
+        .any(|t| t.eq_ignore_ascii_case(name));
 
-    let maybe_html = s.split_whitespace().next().unwrap_or(s);
-    is_html_block_identifier(maybe_html)
-        || html_block_condition_3(maybe_html)
-        || html_block_condition_2(maybe_html)
-        || html_block_condition_4(maybe_html)
-        || html_block_condition_5(maybe_html)
+    tag.starts_with('?')
+        || HTML_BLOCK_TAG.iter().any(|t| t.eq_ignore_ascii_case(name))
+            && !(is_raw_text && tag.starts_with('/'))
+            && ends_name(rest)
 }
diff --git a/src/links.rs b/src/links.rs
index abcb7df..b5e008c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -64,6 +64,11 @@ impl LinkWriter {
         }
     }
 
+    /// Get what's been written to the internal buffer so far
+    pub(crate) fn buffer(&self) -> &str {
+        &self.buffer
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
     }
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 899d818..cfcdc96 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,15 +1,16 @@
-use crate::escape::needs_escape;
-use crate::html::starts_with_html_block_identifier;
+use crate::escape::{is_backtick_fence, needs_escape};
+use crate::html::{starts_html_block, starts_with_declaration};
 use crate::links::is_balanced;
 use crate::utils::{is_markdown_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
+use itertools::Itertools;
 use pulldown_cmark::{Event, LinkType, Parser, Tag};
 use regex::Regex;
 use std::fmt::Write;
 use std::sync::OnceLock;
-use textwrap::core::Word;
 use textwrap::Options as TextWrapOptions;
+use textwrap::core::Word;
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
 
@@ -107,11 +108,14 @@ impl WriteContext<'_> for Paragraph {
             return self.write_str(s);
         }
 
-        let needs_escape = needs_escape(s).is_some();
+        let escape_kind = needs_escape(s);
+        let needs_escape = escape_kind.is_some();
+        // Whether this is a code fence also depends on the text that comes after it
+        let is_backtick_fence = escape_kind.is_some_and(|kind| kind.is_backtick_fence());
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
         // as something other than text in a paragraph
-        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape {
+        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape && !is_backtick_fence {
             self.buffer.push('\\');
         }
 
@@ -219,7 +223,11 @@ impl Paragraph {
         if !start.is_empty() {
             let start_of_line = start.rfind('\n').map_or(0, |idx| idx + 1);
             let (start, indent) = start.split_at(start_of_line);
-            let line = rest.lines().next().unwrap_or_default().trim_end_matches(' ');
+            let line = rest
+                .lines()
+                .next()
+                .unwrap_or_default()
+                .trim_end_matches(' ');
             let line_options = wrap_options.clone().initial_indent(indent);
             output_buffer.push_str(start);
             output_buffer.push_str(&textwrap::fill(line, line_options));
@@ -244,6 +252,8 @@ impl Paragraph {
 /// reference definition that comes before it, if it was on lines of its own. The text can't be
 /// wrapped up until there.
 fn link_definition_end(text: &str, after_link_definition: bool) -> usize {
+    let indentation = text.len() - text.trim_start_matches(' ').len();
+    let text = &text[indentation..];
     let definition = match text.chars().next() {
         Some('[') if text.contains("]:") => "",
         Some('"' | '\'' | '(') if after_link_definition => "[label]: url\n",
@@ -265,7 +275,7 @@ fn link_definition_end(text: &str, after_link_definition: bool) -> usize {
                 || definition[start_of_last_word..].contains("]:")
         })
         .find(is_link_definition)
-        .map_or(0, |idx| idx + 1)
+        .map_or(0, |idx| indentation + idx + 1)
 }
 
 /// A first line that only contains an HTML tag would start an HTML block, so move the end of the
@@ -313,7 +323,11 @@ fn join_soft_breaks(text: &str) -> String {
     let mut output = String::with_capacity(text.len());
     let mut lines = text.split('\n').peekable();
 
-    while let Some(line) = lines.next() {
+    while let Some(mut line) = lines.next() {
+        if output.ends_with(' ') {
+            // The line doesn't need to be indented anymore
+            line = line.trim_start_matches(' ');
+        }
         output.push_str(line);
         if lines.peek().is_none() {
             break;
@@ -335,7 +349,14 @@ fn join_soft_breaks(text: &str) -> String {
         }
     }
 
+    // A code span that isn't interpreted as a code fence anymore doesn't need to be indented
     output
+        .split('\n')
+        .map(|line| match line.trim_start_matches(' ') {
+            code if code.starts_with("```") && !is_backtick_fence(code) => code,
+            _ => line,
+        })
+        .join("\n")
 }
 
 /// Find all the words in a line of text. Words are kept together if moving the second one to the
@@ -386,6 +407,12 @@ fn can_break_between(word: &str, next: &str) -> bool {
         return false;
     }
 
+    // The `>` that the next line of a blockquote starts with would end the declaration
+    let is_declaration = |i: usize| starts_with_declaration(&word[i..]) && !word[i..].contains('>');
+    if word.rfind("<!").is_some_and(is_declaration) {
+        return false;
+    }
+
     // Don't break up whitespace between brackets
     if word.ends_with('[') && next.starts_with(']') {
         return false;
@@ -424,17 +451,7 @@ fn could_interrupt_paragraph(word: &str) -> bool {
 
     let is_atx_header = || word.len() <= 6 && word.chars().all(|c| c == '#');
 
-    let is_html_block = || {
-        let Some(tag) = word.strip_prefix('<') else {
-            return false;
-        };
-        let name = tag.strip_prefix('/').unwrap_or(tag);
-        let name_end = name
-            .find(|c: char| !c.is_ascii_alphanumeric())
-            .unwrap_or(name.len());
-        starts_with_html_block_identifier(&name[..name_end])
-            || starts_with_html_block_identifier(tag)
-    };
+    let is_html_block = || word.strip_prefix('<').is_some_and(starts_html_block);
 
     only_block_markers(word)
         || starts_with_code_fence(word)
diff --git a/src/utils.rs b/src/utils.rs
index d3db484..4ac205b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -128,6 +128,21 @@ pub(crate) fn split_lines(s: &str) -> impl Iterator<Item = &str> {
     }
 }
 
+/// Remove the `>` that a line of a blockquote starts with, and the space that can come after it.
+pub(crate) fn strip_blockquote_marker(line: &str) -> Option<&str> {
+    let rest = line.trim_start_matches([' ', '\t']).strip_prefix('>')?;
+    Some(rest.strip_prefix([' ', '\t']).unwrap_or(rest))
+}
+
+/// Check if what comes after the given text is indented too far to start anything other than an
+/// indented code block.
+pub(crate) fn is_over_indented(before: &str) -> bool {
+    let line_start = before.trim_end_matches([' ', '\t']);
+    let indentation = &before[line_start.len()..];
+    (line_start.is_empty() || line_start.ends_with(['\r', '\n', '>']))
+        && (indentation.len() >= 4 || indentation.contains('\t'))
+}
+
 #[test]
 fn make_sure_sequence_ends_on_escape_works() {
     // Sequences that end on an unescaped backslash
-- 
2.43.0


From 22c55d8abd8e4962536c17a3906dc28ab7147b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 56/65] fix: don't escape lines of inline HTML and declarations

---
 src/formatter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3e6b0f6..e4b817a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -587,6 +587,8 @@ where
         let ends_with_newline = snippet.ends_with('\n');
         let is_declaration =
             matches!(event, Event::InlineHtml(html) if starts_with_declaration(html));
+        // The `>` of the blockquote would end the declaration
+        let joins_lines = is_declaration && self.in_blockquote();
         // What's left of the parsed text, without any of the leading indentation.
         let mut parsed_text = match event {
             // The first `>` is the end of a declaration
@@ -626,7 +628,7 @@ where
             // of a code span comes right after it's last line. The other lines of a code span are
             // only going to be parsed differently if they're now nested in another block.
             let indentation = &line[..line.len() - line.trim_start_matches([' ', '\t']).len()];
-            let needs_escape = if i == 0 || is_over_indented(indentation) {
+            let needs_escape = if i == 0 || joins_lines || is_over_indented(indentation) {
                 None
             } else if matches!(event, Event::Code(_)) && !is_lazy_continuation {
                 None
@@ -637,6 +639,11 @@ where
             };
 
             match needs_escape {
+                Some(_) if matches!(event, Event::InlineHtml(_)) => {
+                    // There are no escapes in HTML. Nothing starts on a line that's indented this
+                    // far.
+                    write_context!(self, event, "    {line}{trailing_spaces}")?;
+                }
                 Some(escape_kind) if escape_kind.multi_character_escape() => {
                     let marker = escape_kind.marker();
                     for c in line.chars() {
@@ -656,8 +663,7 @@ where
                 }
             }
 
-            if !is_last && is_declaration && self.in_blockquote() {
-                // The `>` of the blockquote would end the declaration
+            if !is_last && joins_lines {
                 self.write_event_str(event, " ")?;
             } else if !is_last || ends_with_newline {
                 writeln_context!(self, event)?;
-- 
2.43.0


From 3fd8dfc43b02d3c3094044a989902a0e1666b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 57/65] fix: indent the comment between a list and code when
 white space comes before it

---
 src/formatter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e4b817a..1b7abca 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1670,7 +1670,14 @@ where
                 //     indented code block that would otherwise be parsed as a subparagraph of the
                 //     final list item, you can insert a blank HTML comment
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
-                    self.write_newlines(1)?;
+                    if self
+                        .current_buffer_text()
+                        .is_some_and(|text| text.ends_with('\n'))
+                    {
+                        self.write_indentation(false)?;
+                    } else {
+                        self.write_newlines(1)?;
+                    }
                     write!(self, "<!-- Don't absorb code block into list -->")?;
                     self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
-- 
2.43.0


From 66489e56b4a2d5f4a977c95be438687a7600a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 58/65] fix: don't trim characters from info strings that are
 no white space to Markdown

---
 src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1b7abca..0a8903a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1241,14 +1241,14 @@ where
 
                         let starts_with_space = self.input[range.clone()]
                             .trim_start_matches(marker_char)
-                            .starts_with(char::is_whitespace);
+                            .starts_with(is_markdown_whitespace);
 
                         let info_string = self.input[range]
                             .lines()
                             .next()
                             .unwrap_or_else(|| info_string.as_ref())
                             .trim_start_matches(marker_char)
-                            .trim();
+                            .trim_matches(is_markdown_whitespace);
 
                         if starts_with_space {
                             writeln!(self, " {info_string}")?;
-- 
2.43.0


From d89b7cae753541fd91e62f1b9a93df7dba40a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 59/65] fix: don't drop a no-break space at the end of a
 destination that a title follows

---
 src/links.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index b5e008c..62c6218 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -267,9 +267,13 @@ fn split_inline_url_from_title(
 
     let (mut url, mut title_with_quotes) = input.split_at(link_start);
 
-    url = url.trim();
+    // Other Unicode white space that comes before the space is part of the destination
+    url = match url.trim_end_matches(is_markdown_whitespace) {
+        trimmed if trimmed.len() < url.len() => trimmed.trim_start_matches(is_markdown_whitespace),
+        _ => url.trim(),
+    };
 
-    title_with_quotes = title_with_quotes.trim();
+    title_with_quotes = title_with_quotes.trim_matches(is_markdown_whitespace);
 
     // Remove the wrapping quotes from the title
     let quote = title_with_quotes
-- 
2.43.0


From 72c736039bc16835a9971cdce14be516082f539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 60/65] fix: don't drop characters from lines of HTML blocks
 that are no white space to Markdown

---
 src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 0a8903a..7b6cefa 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -995,7 +995,7 @@ where
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-                    let snippet = &self.input[range].trim_end();
+                    let snippet = &self.input[range].trim_end_matches(is_markdown_whitespace);
                     if snippet.is_empty() {
                         // A blank line. It's newline gets written along with the next line.
                         last_position = self.last_position;
-- 
2.43.0


From 3f155aeb633b7841ceabd7e5edf3a1a508cd3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 61/65] fix: don't write a space after an empty list item that
 follows a tab in a block quote

---
 src/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 7b6cefa..3a8a122 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1344,7 +1344,11 @@ where
                 let (empty_list_item, link_defs) = match self.events.peek() {
                     Some((Event::End(TagEnd::Item), _)) => {
                         let snippet = &self.input[range.clone()];
-                        let just_list_marker = snippet.trim().len() == list_marker.len();
+                        // The range of an item can start at the `>` of the block quote it's in
+                        let just_list_marker = snippet
+                            .trim_matches(|c: char| c.is_whitespace() || c == '>')
+                            .len()
+                            == list_marker.len();
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
-- 
2.43.0


From 877367dbc13806e4301bbe7901442b0abe59cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 62/65] fix: don't write the blank lines before a footnote
 definition twice in a block quote

---
 src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3a8a122..2698ba9 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1412,8 +1412,11 @@ where
                 self.rewrite_reference_link_definitions_inner(link_defs)?;
             }
             Tag::FootnoteDefinition(ref label) => {
-                let newlines = self.count_newlines(&range);
-                self.write_newlines(newlines)?;
+                if self.needs_indent {
+                    let newlines = self.count_newlines(&range);
+                    self.write_newlines(newlines)?;
+                    self.needs_indent = false;
+                }
 
                 // Anchor the last_position at the start of the footnote definition. This prevents
                 // picking up extra newlines in case we need to recover refernce link definitions
-- 
2.43.0


From 145db67f7607a7ad38ce54f7a8674ef937b0c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 63/65] fix: indent lazy lines of code spans that could start a
 block, instead of escaping them

---
 src/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 2698ba9..4cfb791 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -632,16 +632,16 @@ where
                 None
             } else if matches!(event, Event::Code(_)) && !is_lazy_continuation {
                 None
-            } else if is_last && matches!(event, Event::Code(_)) {
+            } else if is_last && !ends_with_newline && matches!(event, Event::Code(_)) {
                 self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
             } else {
                 self.needs_escape(line, true)
             };
 
             match needs_escape {
-                Some(_) if matches!(event, Event::InlineHtml(_)) => {
-                    // There are no escapes in HTML. Nothing starts on a line that's indented this
-                    // far.
+                Some(_) if matches!(event, Event::InlineHtml(_) | Event::Code(_)) => {
+                    // There are no escapes in HTML and code. Nothing starts on a line that's
+                    // indented this far.
                     write_context!(self, event, "    {line}{trailing_spaces}")?;
                 }
                 Some(escape_kind) if escape_kind.multi_character_escape() => {
-- 
2.43.0


From 85faa94151079d69faacddcfabca1923c6c246cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 64/65] fix: keep over-indented lines of code spans from
 starting a block in a reindented list item

---
 src/formatter.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4cfb791..15d0271 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -615,7 +615,10 @@ where
             } else {
                 let trimmed = self.trim_leading_indentation(s);
                 let line = parsed_text.map_or(trimmed, |t| find_line(t, s, trimmed, is_last));
-                let is_lazy = line.len() > trimmed.len() || self.is_lazy_continuation(s);
+                // The indentation could have been more than what's left of it
+                let is_lazy = line.len() > trimmed.len()
+                    || self.is_lazy_continuation(s)
+                    || is_over_indented(&s[..s.len() - trimmed.len()]);
                 (line, is_lazy)
             };
             parsed_text = parsed_text.and_then(|text| strip_line(text, line));
@@ -954,10 +957,23 @@ where
                         self.write_over_indentation(&event, range.start)?;
                     }
                     if count_newlines(snippet) > 0 {
+                        let closing_marker = snippet.trim_end_matches('`').len();
                         let snippet = snippet.trim_matches('`');
                         // write the opening and closing markers separately so they aren't escaped.
                         rewrite_marker(self.input, &range, &mut self)?;
                         self.rewrite_multiline_event(&event, snippet)?;
+                        // The closing marker could start a fenced code block
+                        let last_line = split_lines(snippet).last().unwrap_or_default();
+                        let indentation = self.trim_leading_indentation(last_line);
+                        let starts_line = indentation.chars().all(|c| matches!(c, ' ' | '\t'));
+                        let start = range.start + closing_marker;
+                        let line = split_lines(&self.input[start..]).next();
+                        if starts_line
+                            && !is_over_indented(indentation)
+                            && line.is_some_and(is_backtick_fence)
+                        {
+                            self.write_over_indentation(&event, start)?;
+                        }
                         rewrite_marker(self.input, &range, &mut self)?;
                     } else {
                         write!(self, "{snippet}")?;
-- 
2.43.0


From 7d34af992331bc89df0c3cb9913e0be83bf85602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 65/65] fix: don't turn the text of a list item into a checkbox
 when reflowing it

---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index cfcdc96..d7753e6 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -342,6 +342,8 @@ fn join_soft_breaks(text: &str) -> String {
             || current_line.chars().all(|c| matches!(c, '*' | '_' | '-' | ' '))
             // Joining a line like `+` or `1.` with the next one would turn the text into a list
             || is_list_marker(current_line)
+            // Joining `[` and `]` at the start of a list item would turn the text into a checkbox
+            || output == "[" && lines.peek().is_some_and(|next| next.starts_with(']'))
         {
             output.push('\n');
         } else {
-- 
2.43.0

