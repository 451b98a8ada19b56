From 4015a8fa24656eff594acf11f649c32bc248cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:28 +0000
Subject: [PATCH 01/12] fix: avoid stack overflow on instructions with many
 continued lines

parse_any_breakable_inner() recursed once per continued line, aborting the
process on long multi-line RUN, CMD, ENTRYPOINT, ENV or misc instructions.
---
 src/util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..f32d28a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -252,9 +252,12 @@ impl From<((usize, usize), &str)> for BreakableString {
 fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>> {
   let mut components = Vec::new();
 
-  for field in pair.into_inner() {
+  // any_breakable nests once per continued line, so walk the flattened (i.e.
+  // in-order) pairs rather than recursing: the number of lines in an instruction
+  // should not be limited by the size of the stack
+  for field in pair.into_inner().flatten() {
     match field.as_rule() {
-      Rule::any_breakable => components.extend(parse_any_breakable_inner(field)?),
+      Rule::any_breakable => continue,
       Rule::comment => components.push(SpannedComment {
         span: (&field).into(),
         content: field.as_str().to_string(),
-- 
2.43.0


From ac7b3a3a3bf275953976640e2e3f46a415dabbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 02/12] fix: accept escaped CRLF line breaks in quoted LABEL
 strings

The grammar treats \r\n (and \r) as a newline everywhere, but only \\\n was
removed from quoted labels before unescaping, so a valid multi-line label was
rejected in a file with CRLF line endings.
---
 src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f32d28a..d6098ad 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -7,6 +7,8 @@ use crate::parser::*;
 use crate::splicer::Span;
 
 use enquote::unquote;
+use lazy_static::lazy_static;
+use regex::Regex;
 use snafu::ResultExt;
 
 /// Given a node ostensibly containing a string array, returns an unescaped
@@ -46,11 +48,15 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n, \\\r\n or \\\r) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  lazy_static! {
+    static ref ESCAPED_BREAK: Regex = Regex::new(r"\\(?:\r\n|\n|\r)").unwrap();
+  }
+
+  ESCAPED_BREAK.replace_all(s, "").into_owned()
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From 6c65b67311425475fd272b2014072e064ab9ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 03/12] fix: reject image digests with non-hexadecimal
 characters

The digest pattern was not anchored, so any 64 character digest with at least
one hexadecimal digit was accepted.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From ca6b490840029f363264748f24cb64b1093a864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:31 +0000
Subject: [PATCH 04/12] fix: find global args that follow a non-ARG instruction

get_global_arg() stopped at the first instruction other than ARG, and so missed
global args (those preceding the first FROM, as listed in global_args and used
to resolve image references) declared after e.g. a MAINTAINER.
---
 src/dockerfile_parser.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..cca42e3 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -399,20 +399,7 @@ impl Dockerfile {
   /// Attempts to find a global argument by name. Returns None if no global ARG
   /// with the given name exists.
   pub fn get_global_arg(&self, name: &str) -> Option<&ArgInstruction> {
-    for ins in &self.instructions {
-      match ins {
-        Instruction::Arg(a) => {
-          if a.name.content == name {
-            return Some(a);
-          } else {
-            continue
-          }
-        },
-        _ => return None
-      }
-    }
-
-    None
+    self.global_args.iter().find(|a| a.name.content == name)
   }
 }
 
-- 
2.43.0


From 9dec5b7ec1e4e045f5014f5c6eb34684a6d97453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 05/12] fix: allow comments before the first RUN, CMD or
 ENTRYPOINT argument

A comment line between the (continued) keyword and its first argument was
rejected as an unexpected token.
---
 src/instructions/cmd.rs        | 4 +++-
 src/instructions/entrypoint.rs | 4 +++-
 src/instructions/run.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..59b0e42 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,9 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8d3f22d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,9 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..3267514 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,9 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 16be2f339a73776b6fd760a213c5335176d023ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 06/12] fix: do not treat a leading # in shell-form arguments
 as a comment

Comments are whole lines, but an argument starting with # on the same line as
its instruction was parsed as a comment line too: `ENV COLOR #fff` lost its
value, and the instruction on the next line was swallowed.
---
 src/dockerfile_parser.pest | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..9cf78f3 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,13 +68,18 @@ any_content = @{
   )+
 }
 any_breakable = ${
+  // some piece of content, requiring a continuation EXCEPT on the final line
+  any_content ~ (line_continuation ~ any_breakable_line)?
+}
+
+// a line following a line continuation
+any_breakable_line = _{
   (
     // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
+    comment_line ~ any_breakable_line?
   ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
+    // ... OR some further piece of content
+    any_breakable
   )
 }
 
-- 
2.43.0


From 475225c33b5667a1723166fd02d096d0d54aefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:40 +0000
Subject: [PATCH 07/12] fix: keep splices of adjacent spans apart

Offsets were applied by comparing positions in the modified document, where
adjacent spans become indistinguishable once one of them has been deleted or
content has been inserted between them: inserting at a position and then
replacing the span that starts there lost the inserted content, and replacing
two deleted neighbours again could swap them. Compare the original spans.
---
 src/splicer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..67dd3ef 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -9,7 +9,8 @@ use crate::dockerfile_parser::Dockerfile;
 /// An offset used to adjust proceeding Spans after content has been spliced
 #[derive(Debug)]
 struct SpliceOffset {
-  position: usize,
+  /// the spliced span, relative to the original input document
+  span: Span,
   offset: isize
 }
 
@@ -39,10 +40,12 @@ impl Span {
     let mut end = self.end as isize;
 
     for splice in offsets {
-      if splice.position < start as usize {
+      // compare spans in the original document: once content has been deleted or
+      // inserted, distinct spans may share the same position in the new one
+      if splice.span.end <= self.start && splice.span != *self {
         start += splice.offset;
         end += splice.offset;
-      } else if splice.position < end as usize {
+      } else if splice.span.start < self.end {
         end += splice.offset;
       }
     }
@@ -161,6 +164,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let original_span = *span;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +172,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { span: original_span, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0


From 6a991167f8ed0bada224f35307c50d348a3ecc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 08/12] fix: fall back to shell form when text follows a quoted
 list or string

Valid instructions such as `RUN [ "$a" ] && b` or `ENV a "b" c` were rejected:
the leading list (or quoted string) was taken as the whole argument, leaving the
rest of the line unparsed. Require the instruction to end after it.
---
 src/dockerfile_parser.pest | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 9cf78f3..4fe5134 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -83,6 +83,9 @@ any_breakable_line = _{
   )
 }
 
+// the end of an instruction, used to look ahead
+step_end = _{ arg_ws_maybe ~ (NEWLINE | EOI) }
+
 // consumes any character until the end of the line
 any_eol = _{ (!NEWLINE ~ ANY)* }
 
@@ -133,15 +136,15 @@ label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) }
 
 run_shell = @{ any_breakable }
 run_exec = { string_array }
-run = { ^"run" ~ arg_ws ~ (run_exec | run_shell) }
+run = { ^"run" ~ arg_ws ~ (run_exec ~ &step_end | run_shell) }
 
 entrypoint_shell = @{ any_breakable }
 entrypoint_exec = { string_array }
-entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec | entrypoint_shell) }
+entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec ~ &step_end | entrypoint_shell) }
 
 cmd_shell = @{ any_breakable }
 cmd_exec = { string_array }
-cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec | cmd_shell) }
+cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec ~ &step_end | cmd_shell) }
 
 copy_flag_name = @{ ASCII_ALPHA+ }
 copy_flag_value = @{ any_whitespace }
@@ -156,7 +159,7 @@ env_pair = @{ env_name ~ "=" ~ (env_pair_quoted_value | env_pair_value) }
 env_pairs = { (arg_ws ~ env_pair?)+ }
 env_single_quoted_value = ${ string }
 env_single_value = @{ any_breakable }
-env_single = {  arg_ws ~ env_name ~ arg_ws ~ (env_single_quoted_value | env_single_value) }
+env_single = {  arg_ws ~ env_name ~ arg_ws ~ (env_single_quoted_value ~ &step_end | env_single_value) }
 env = { ^"env" ~ (env_single | env_pairs) }
 
 misc_instruction = @{ ASCII_ALPHA+ }
-- 
2.43.0


From b0e95a189e3adf98a01904d152421ccbcc38c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:29 +0000
Subject: [PATCH 09/12] fix: choose the quoted and exec forms by the rest of
 the line only

---
 src/dockerfile_parser.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 4fe5134..fa71e59 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -84,7 +84,7 @@ any_breakable_line = _{
 }
 
 // the end of an instruction, used to look ahead
-step_end = _{ arg_ws_maybe ~ (NEWLINE | EOI) }
+step_end = _{ ws* ~ (NEWLINE | EOI) }
 
 // consumes any character until the end of the line
 any_eol = _{ (!NEWLINE ~ ANY)* }
-- 
2.43.0


From 3814e8b252db00bdfb1d602762b2c0b6ad0f1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 10/12] fix: end a label's name at a line continuation

A line continuation written directly after the name of a
name-space-value LABEL was taken as part of the name, so that the
instruction fell back to an unsupported one.
---
 src/dockerfile_parser.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index fa71e59..bb2efd0 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -96,7 +96,7 @@ any_whitespace = _{ (!(NEWLINE | EOI | arg_ws) ~ ANY)+ }
 identifier_whitespace = _{ (!ws ~ (ASCII_ALPHANUMERIC | "_" | "-"))+ }
 
 // consumes until whitespace or = (for key in key=value pairs)
-any_equals = _{ (!(NEWLINE | ws | "=") ~ ANY)+ }
+any_equals = _{ (!(NEWLINE | arg_ws | "=") ~ ANY)+ }
 
 // parses ["foo", "bar", "baz"] with excessive escaping
 string_array = _{
-- 
2.43.0


From e3687afe1b7eeebec9f453712cc327844bfd0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 11/12] fix: parse long quoted strings without nesting

A quoted string was parsed with one level of nesting per escape, so strings
with many escapes were rejected once the parser ran out of stack; how many
depended on the size of the calling thread's stack.
---
 src/dockerfile_parser.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index bb2efd0..44c0adb 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -37,12 +37,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = @{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = @{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 2f51f06fc3d3a9195e2c4fbd7085b01e9e4fa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 12/12] fix: parse continued lines without nesting

Each continued line was parsed one level deeper than the line before, so long
instructions were rejected once the parser ran out of stack; how many lines
were accepted depended on the size of the calling thread's stack.
---
 src/dockerfile_parser.pest | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 44c0adb..0cd7040 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -69,18 +69,14 @@ any_content = @{
 }
 any_breakable = ${
   // some piece of content, requiring a continuation EXCEPT on the final line
-  any_content ~ (line_continuation ~ any_breakable_line)?
-}
+  any_content ~
 
-// a line following a line continuation
-any_breakable_line = _{
-  (
-    // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable_line?
-  ) | (
-    // ... OR some further piece of content
-    any_breakable
-  )
+  // a line following a line continuation can be any number of comments (no line
+  // continuation required) followed by some further piece of content
+  (line_continuation ~ comment_line* ~ any_content)* ~
+
+  // ... OR only comments, which end the string
+  (line_continuation ~ comment_line+)?
 }
 
 // the end of an instruction, used to look ahead
-- 
2.43.0

