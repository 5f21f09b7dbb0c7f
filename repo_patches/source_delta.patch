From 141a554f021d3578ffc0821e1a73c2e7569c1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/31] fix: SourceRange::to_string must slice by bytes, not by
 characters

Ranges are byte offsets everywhere, but to_string used character
indices, so every token value after a non-ASCII character was wrong.
---
 src/source_range.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..7caafd8 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,11 +16,14 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
-    parser
-      .borrow()
-      .source
-      .substring(self.start, self.end)
-      .to_string()
+    // Offsets are byte offsets, so slice by bytes (clamped to the source)
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
+    match parser.source.get(self.start..end) {
+      Some(value) => value.to_string(),
+      None => String::new(),
+    }
   }
 
   pub fn clone_with_len(&self, len: usize) -> Self {
-- 
2.43.0


From 37c02cc124e243cf4de890044f056cb01a723e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 02/31] fix: debug_range must not split a multi-byte character

Debug output (and failures while debugging) panicked if the tenth byte
following the current offset was in the middle of a character.
---
 src/parser_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..d7c9ba7 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,11 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    // Never split a character
+    while end_offset < parser.source.len() && !parser.source.is_char_boundary(end_offset) {
+      end_offset += 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From 8aaaf97411b96d83c0673211dddd96f71ee16bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 03/31] fix: Sequence must advance by whole characters

Scanning advanced one byte at a time, so any non-ASCII character
inside of (or following an escape in) a sequence caused a panic.
---
 src/matchers/sequence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..16aa3e0 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -215,12 +215,13 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          // Skip the (entire) character following the escape
+          index = source_range.end + char_len_at(source, source_range.end);
+          previous_index = source_range.end;
 
           continue;
         } else {
-          index += 1;
+          index += char_len_at(source, index);
           continue;
         }
       }
@@ -228,6 +229,10 @@ where
   }
 }
 
+fn char_len_at(source: &str, index: usize) -> usize {
+  source[index..].chars().next().map_or(1, |c| c.len_utf8())
+}
+
 impl<T> Matcher for SequencePattern<T>
 where
   T: Fetchable,
-- 
2.43.0


From 9e7b3dccc9d2c3feefd0d68e3a1a5ccc0c5a2815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 04/31] fix: Loop must honor its bounds

A loop over min..max iterated (max - min) times (and then failed
because that was less than the minimum), and did not enforce the minimum
when iteration stopped because a pattern failed to match.
---
 src/matchers/program.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..ed1db59 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -171,7 +171,7 @@ impl ProgramPattern {
       None => false,
     };
     let iterate_range = match &self.iterate_range {
-      Some(range) => range.clone(),
+      Some(range) => (0..range.end),
       None => (0..1),
     };
     let mut iteration_result: Option<MatcherSuccess>;
@@ -321,7 +321,12 @@ impl ProgramPattern {
                   continue;
                 }
                 _ => {
-                  if is_loop {
+                  if let Some(range) = &self.iterate_range {
+                    // If we matched less than we were supposed to, then fail
+                    if loop_count < range.start {
+                      return Err(MatcherFailure::Fail);
+                    }
+
                     if sub_context.debug_mode_level() > 1 {
                       println!(
                         "{{{}/Finalizing}}: Failure",
-- 
2.43.0


From 47dc7f2ce8eba8ab82eb617d44e68ea0dfb2320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 05/31] fix: Loop must stop when an iteration makes no progress

A loop whose patterns succeed without consuming anything (i.e. an
optional pattern, or a zero width regular expression) never terminated.
---
 src/matchers/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index ed1db59..34d402c 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -179,6 +179,7 @@ impl ProgramPattern {
 
     for _ in iterate_range {
       iteration_result = None;
+      let iteration_start = sub_context.borrow().offset.start;
 
       if sub_context.borrow().debug_mode_level() > 1 {
         println!("{{{}/Iterating}}", program_token.borrow().get_name());
@@ -555,6 +556,13 @@ impl ProgramPattern {
       }
 
       loop_count += 1;
+
+      // An iteration that consumed nothing would repeat forever
+      if let Some(range) = &self.iterate_range {
+        if loop_count >= range.start && sub_context.borrow().offset.start <= iteration_start {
+          break;
+        }
+      }
     }
 
     if sub_context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 21b837a2271fea4559b43ad0791bffc85483bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 06/31] fix: flattened tokens must consume everything they
 matched

After flattening a token into its parent, parsing continued from the end
of its last child, re-reading any trailing text that was discarded.
---
 src/matchers/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 34d402c..abe71f3 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -848,6 +848,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding children moves the offset back to the end of the last child,
+  // but everything that was matched has been consumed
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From e15b10cb4e47b59ac2e3e7833e0f2af50a66cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 07/31] fix: Continue must propagate to the loop it names

Switch converted a Continue into a Break, and a Program (or another
loop) dropped it, instead of propagating it to the loop to continue.
---
 src/matchers/program.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index abe71f3..bd95a77 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -475,7 +475,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -536,7 +536,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -544,7 +544,14 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((loop_name, Box::new(final_token))));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From f453236ff5e22013b715666a18a94f0f45c1e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 08/31] fix: an error that comes first must have a valid range

An error token with nothing matched before it was given a start of
usize::MAX, making its range (and the one of its error) meaningless.
---
 src/matchers/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index bd95a77..801e0d4 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -688,7 +688,8 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      // Expand backwards over what has been matched so far (if anything has)
+      if source_range.start == source_range.end && matched_range.start < source_range.start {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From e0516e75d0f33c16450b986840c9ca80ac2ab5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 09/31] fix: an assignment from an identifier must reference
 that identifier

`A = B` created a reference to the text of the whole assignment, which
can never be found.
---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From 40b076b8a99b5fb40e0914eb3416001673376ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 10/31] fix: a Panic must be located in the program that
 panicked

The range of a Panic begins with the range of the program being matched,
but that was always reported as the start of the source.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 801e0d4..f53f7d1 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -161,7 +161,7 @@ impl ProgramPattern {
     let program_token = StandardToken::new(
       &sub_context.borrow().parser,
       self.name.to_string(),
-      SourceRange::new_blank(),
+      SourceRange::new(start_offset, start_offset),
     );
     let mut children = Vec::<TokenRef>::with_capacity(self.patterns.len());
     let mut captured_range = SourceRange::new(usize::MAX, 0);
-- 
2.43.0


From f6deba37aec1051248468e42b508f86700bfbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 11/31] fix: skipping backwards must not overflow

Discarding a match that was pinned to an earlier offset results in a
negative skip, which panicked when added to an unsigned offset.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index f53f7d1..ba43ca1 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -874,7 +874,7 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  let new_offset = (context.borrow().offset.start as isize + offset) as usize;
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 53ffd6f86d0955225bb73810096ca84b5bdfe443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 12/31] fix: a Pin outside of the source must fail instead of
 panic

Offsets before the start, after the end, or in the middle of a character
caused an arithmetic overflow, or an invalid slice.
---
 src/matchers/pin.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..90f2808 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -26,7 +26,7 @@ fn is_empty_offset(offset_str: &str) -> bool {
   }
 }
 
-fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
+fn parse_offset(start: usize, end: usize, offset_str: &str) -> Option<usize> {
   if !is_empty_offset(offset_str) {
     let prefix = &offset_str[0..1];
     let part: &str;
@@ -43,12 +43,12 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       Ok(offset) => {
         if has_prefix {
           if prefix == "-" {
-            start - offset
+            start.checked_sub(offset)
           } else {
-            start + offset
+            start.checked_add(offset)
           }
         } else {
-          offset
+          Some(offset)
         }
       }
       Err(err) => {
@@ -59,7 +59,7 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       }
     }
   } else {
-    end
+    Some(end)
   }
 }
 
@@ -335,21 +335,33 @@ where
     // Set start offset
     {
       let start_offset = sub_context.borrow().offset.start;
-      sub_context.borrow_mut().offset.start =
-        parse_offset(start_offset, start_offset, offset_value_parts[0]);
+      match parse_offset(start_offset, start_offset, offset_value_parts[0]) {
+        Some(offset) => sub_context.borrow_mut().offset.start = offset,
+        None => return Err(MatcherFailure::Fail),
+      }
     }
 
     // Set end offset (if specified)
     if offset_value_parts.len() > 1 {
       let start_offset = sub_context.borrow().offset.start;
       let end_offset = sub_context.borrow().offset.end;
-      sub_context.borrow_mut().offset.end =
-        parse_offset(start_offset, end_offset, offset_value_parts[1]);
+      match parse_offset(start_offset, end_offset, offset_value_parts[1]) {
+        Some(offset) => sub_context.borrow_mut().offset.end = offset,
+        None => return Err(MatcherFailure::Fail),
+      }
     }
 
     let start_offset = sub_context.borrow().offset.start;
     let end_offset = sub_context.borrow().offset.end;
 
+    // There is nothing to match outside of the source (or inside of a character)
+    {
+      let parser = sub_context.borrow().get_parser();
+      if parser.borrow().source.get(start_offset..end_offset).is_none() {
+        return Err(MatcherFailure::Fail);
+      }
+    }
+
     match &self.pattern {
       Some(matcher) => matcher
         .borrow()
-- 
2.43.0


From f513a1a79ff4199dbdd58199fb6ee77ca2298dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 13/31] fix: the parent of a token must be the token that
 contains it

Errors moved to the root token (or collected from a discarded token), and
tokens wrapped by ExpandRange, kept their previous parent (or none).
---
 src/matchers/discard.rs      | 4 ++++
 src/matchers/expand_range.rs | 1 +
 src/parser_context.rs        | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..fa5d964 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -100,6 +100,10 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
   let is_error = walk_token.borrow().flags_enabled(crate::token::IS_ERROR);
 
   if is_error {
+    walk_token
+      .borrow_mut()
+      .set_parent(Some(error_token.clone()));
+
     let mut error_token = error_token.borrow_mut();
     error_token.get_children_mut().push(walk_token.clone());
 
diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index f1032fe..0448c76 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -46,6 +46,7 @@ impl ExpandRange {
             matched_range,
           );
 
+          token.borrow_mut().set_parent(Some(wrapper_token.clone()));
           wrapper_token.borrow_mut().add_child(token);
 
           Ok(MatcherSuccess::ProxyChildren(wrapper_token))
diff --git a/src/parser_context.rs b/src/parser_context.rs
index d7c9ba7..9838c38 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -330,6 +330,7 @@ impl ParserContext {
           let is_error = token.borrow().flags_enabled(IS_ERROR);
 
           if is_error {
+            token.borrow_mut().set_parent(Some(root_token.clone()));
             root_token
               .borrow_mut()
               .get_children_mut()
-- 
2.43.0


From 50e3869e12a488b79d633aea36640ab3c6c55638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 14/31] fix: a script with errors must not compile

The errors found in a script were collected, but dropped unless building
the matcher also failed, leaving the caller with whatever was parsed
before the error, and no indication that there was one.
---
 src/script/v1/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..1e62d37 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -433,7 +433,14 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      let parse_errors = parse_errors.into_inner();
+      if parse_errors.len() > 0 {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From 85a481eef10e8856ddc9b5db8d6f7c89fb2b408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 15/31] fix: an invalid pattern in a script must be an error,
 not a panic

A malformed regular expression, or a sequence with an empty start or end,
aborted the process instead of being returned as an error.
---
 src/script/v1/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1e62d37..6c2fb55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -52,18 +52,24 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(crate::matchers::matches::MatchesPattern::new(regex)),
+      Err(error) => Err(format!(
+        "Invalid regular expression for a `Matches` pattern definition: {}",
+        error
+      )),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From 0cd8693a03aa0df6e46fe3868738ae9e9184a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 16/31] fix: a script file that can not be read must be an
 error, not a panic

This includes any file that is imported by a script.
---
 src/script/v1/parser.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 6c2fb55..06ec3dd 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -350,7 +350,8 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
+      let full_path = Path::new(from_file).parent().unwrap().join(&path);
+      let full_path = full_path.canonicalize().unwrap_or(full_path);
       let file_name = full_path.to_str().unwrap();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
@@ -575,26 +576,38 @@ pub fn compile_script_from_str(
   }
 }
 
+fn open_script_file(file_name: &str) -> Result<(ParserRef, String), Vec<ParseError>> {
+  let full_file_name = Path::new(file_name)
+    .canonicalize()
+    .map(|full_path| full_path.to_string_lossy().to_string());
+
+  match full_file_name.and_then(|name| Ok((Parser::new_from_file(&name)?, name))) {
+    Ok(result) => Ok(result),
+    Err(error) => Err(vec![ParseError::new(&format!(
+      "Unable to read file '{}': {}",
+      file_name, error
+    ))]),
+  }
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  let (parser, full_file_name) = open_script_file(file_name)?;
+  compile_script(
+    parser,
+    file_name.to_string(),
+    Some(full_file_name.as_str()),
+    flags,
+  )
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 503660b46c0241c4b3557f8d0a6125dcd38e427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 17/31] fix: a circular import must be an error

Files importing each other were compiled over and over again, until the
stack overflowed and the process was aborted.
---
 src/script/v1/parser.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 06ec3dd..5c4acc2 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -24,6 +24,11 @@ lazy_static::lazy_static! {
   static ref REPEAT_SPECIFIER: regex::Regex = regex::Regex::new(r"^(RepeatZeroOrMore|RepeatOneOrMore|RepeatRange)$").expect("Could not compile needed Regex for `script::Parser`");
 }
 
+thread_local! {
+  // Files currently being compiled, from the first file down to the current import
+  static FILES_COMPILING: RefCell<Vec<String>> = RefCell::new(Vec::new());
+}
+
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
 fn construct_matcher_from_inner_definition(
@@ -595,12 +600,24 @@ fn compile_script_from_file_internal(
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let (parser, full_file_name) = open_script_file(file_name)?;
-  compile_script(
+
+  if FILES_COMPILING.with(|files| files.borrow().contains(&full_file_name)) {
+    return Err(vec![ParseError::new(&format!(
+      "Circular import of file '{}'",
+      file_name
+    ))]);
+  }
+
+  FILES_COMPILING.with(|files| files.borrow_mut().push(full_file_name.clone()));
+  let result = compile_script(
     parser,
     file_name.to_string(),
     Some(full_file_name.as_str()),
     flags,
-  )
+  );
+  FILES_COMPILING.with(|files| files.borrow_mut().pop());
+
+  result
 }
 
 pub fn compile_script_from_file(
-- 
2.43.0


From 9ffb4ffbfb106141323bf04c8f0cc0e2166de1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 18/31] fix: a token that only contains errors must not panic
 its parent

Errors have a zero width, and so does a token containing nothing else,
which then tripped the assertion that a token must move forward.
---
 src/matchers/program.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index ba43ca1..342f43b 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -663,7 +663,10 @@ fn add_token_to_children(
 
       if assert_moving_forward && update_offsets {
         // Ensure that we are moving forward, and that the token doesn't have a zero width
-        if token.get_matched_range().end == context.borrow().offset.start {
+        // (unless all that it contains are zero width errors)
+        if token.get_matched_range().end == context.borrow().offset.start
+          && token.get_children().len() == 0
+        {
           if context.borrow().debug_mode_level() > 1 {
             print!("{{{}/AddChild}} ", program_token.borrow().get_name());
           }
-- 
2.43.0


From c894fa5acbe810ccde44c2c8f98539a3d4cfabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 19/31] fix: Switch alternatives must all start at the same
 offset

A negative skip (discarding a match pinned to an earlier offset) was not
taken as a match, but moved the offset of the remaining alternatives.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 342f43b..97a7ce9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -266,7 +266,7 @@ impl ProgramPattern {
               );
             }
             MatcherSuccess::Skip(amount) => {
-              if amount > 0 {
+              if amount != 0 {
                 match self.on_first_match {
                   MatchAction::Stop => {
                     if sub_context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 2b96e5a7bd106b79e171fe9f274f660d4a11257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 20/31] fix: the error of a malformed script scope must not be
 lost

---
 src/script/v1/matchers/script.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..a48e3cc 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -18,6 +18,11 @@ macro_rules! Script {
         let adextopa_scope = _token.find_child("AdextopaScope");
         let pattern_scope = _token.find_child("PatternScope");
 
+        // A scope that is malformed is an error token instead, which must be kept
+        if _token.has_child("Error") {
+          return $crate::TokenResult!(token.clone());
+        }
+
         if adextopa_scope.is_none() && pattern_scope.is_none() {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
-- 
2.43.0


From 8e7c2487dd75c99b110ea682f4e2f66c8135054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 21/31] fix: text after the header that is not a pattern must
 be an error

---
 src/script/v1/matchers/script.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index a48e3cc..989da65 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -27,6 +27,16 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        if pattern_scope.is_none() {
+          let parser = _token.get_parser();
+          let source = &parser.borrow().source;
+          let rest = source[_token.get_matched_range().end..].trim_start();
+
+          if rest != "" {
+            return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", rest), &$crate::source_range::SourceRange::new(source.len() - rest.len(), source.len()));
+          }
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From a9e1b2ec463684aad7b1ecbb378cc4f1c35759c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 22/31] fix: a syntax error in a script must be located where
 the patterns end

---
 src/script/v1/matchers/pattern_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/pattern_scope.rs b/src/script/v1/matchers/pattern_scope.rs
index 45ebd34..87ddd58 100644
--- a/src/script/v1/matchers/pattern_scope.rs
+++ b/src/script/v1/matchers/pattern_scope.rs
@@ -16,7 +16,7 @@ macro_rules! ScriptPatternScope {
         let source = &parser.borrow().source;
 
         if token_range.end < source.len() {
-          return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[token_range.end..]));
+          return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[token_range.end..]), &$crate::source_range::SourceRange::new(token_range.end, source.len()));
         }
 
         $crate::TokenResult!(token.clone())
-- 
2.43.0


From 1c914a6bdeb18419e2834ed6e38006bfafdd447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 23/31] fix: the error of a script without scopes must be
 reported

---
 src/script/v1/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 5c4acc2..8c58a4f 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -278,6 +278,13 @@ fn build_matcher_from_tokens(
   from_file: Option<&str>,
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  if let Some(error_message) = root_token.borrow().get_attribute("__message") {
+    return Err(vec![ParseError::new_with_range(
+      error_message,
+      root_token.borrow().get_matched_range().clone(),
+    )]);
+  }
+
   if root_token.borrow().get_name() != "Script" {
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
-- 
2.43.0


From 86bb73c66d7e1bd57dc7805eeeeb3ed8ea1bb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 24/31] fix: an invalid pattern must be reported where it is

---
 src/script/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 8c58a4f..0461eae 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -343,7 +343,7 @@ fn build_matcher_from_tokens(
             scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(defined_matchers.0.clone()));
           },
           Err(error) => {
-            return Err(ParseError::new(&format!("Error attempting to create matcher from parsed pattern token: {}", error)));
+            return Err(ParseError::new_with_range(&format!("Error attempting to create matcher from parsed pattern token: {}", error), _value.get_matched_range().clone()));
           }
         }
       }
@@ -441,7 +441,7 @@ fn build_matcher_from_tokens(
               scoped_matcher.borrow_mut().add_pattern(defined_matchers.0);
             },
             Err(error) => {
-              return Err(ParseError::new(&format!("Error attempting to create matcher from parsed pattern token: {}", error)));
+              return Err(ParseError::new_with_range(&format!("Error attempting to create matcher from parsed pattern token: {}", error), _child.get_matched_range().clone()));
             }
           }
         }
-- 
2.43.0


From 72558a32e4194f1d11f42486feefc76dff3d1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 25/31] fix: a header without statements may contain whitespace

---
 src/script/v1/matchers/adextopa_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..316058c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -24,6 +24,7 @@ macro_rules! ScriptAdextopaScope {
             ),
           )
         ),
+        $crate::ScriptWSN0!(?),
         $crate::Discard!($crate::Equals!("-->")),
       ),
       |token, context, __| {
-- 
2.43.0


From a48e927bf58517c26ff67d7c191ac70e1b32d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 26/31] fix: an empty regular expression in a script must be an
 error

---
 src/script/v1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 0461eae..34fbd19 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -49,7 +49,8 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    // Without any "Part" the value would fall back to the delimiters
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 5c697dcbc318761370b29b41b3c090e4565130fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 27/31] fix: escapes in an attribute of a pattern must be
 resolved

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 34fbd19..0f24509 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -183,7 +183,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From 610c797e1b1d9c946acc3d514aac765dfb2eac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 28/31] fix: a Switch or a Program in a script must be closed

---
 src/script/v1/matchers/program_matcher.rs | 12 +++---------
 src/script/v1/matchers/switch_matcher.rs  | 24 +++++------------------
 2 files changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/script/v1/matchers/program_matcher.rs b/src/script/v1/matchers/program_matcher.rs
index 243240f..64287a4 100644
--- a/src/script/v1/matchers/program_matcher.rs
+++ b/src/script/v1/matchers/program_matcher.rs
@@ -8,16 +8,10 @@ macro_rules! ScriptProgramMatcher {
           $crate::ScriptWSN0!(?),
           $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Optional!(
-              $crate::Program!(
-                $crate::Equals!("}"),
-                $crate::Break!(),
-              )
-            )
-          )
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("}")),
     )
   };
 }
diff --git a/src/script/v1/matchers/switch_matcher.rs b/src/script/v1/matchers/switch_matcher.rs
index 6cf3fd3..6cd272f 100644
--- a/src/script/v1/matchers/switch_matcher.rs
+++ b/src/script/v1/matchers/switch_matcher.rs
@@ -6,27 +6,13 @@ macro_rules! ScriptSwitchMatcher {
       $crate::ProxyChildren!(
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
-          $crate::Switch!(
-            $crate::Discard!(
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            ),
-            $crate::ScriptPattern!(),
-          ),
+          $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Switch!(
-              $crate::Equals!("|"),
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            )
-          )
+          $crate::Discard!($crate::Equals!("|")),
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("]")),
     )
   };
 }
-- 
2.43.0


From 634b9897a59eefdd558cc1aa0d27c8b52d85d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 29/31] fix: debugging a pattern does not change whether it
 consumes what it matched

---
 src/matchers/debug.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matchers/debug.rs b/src/matchers/debug.rs
index 5a8a567..7998155 100644
--- a/src/matchers/debug.rs
+++ b/src/matchers/debug.rs
@@ -101,6 +101,13 @@ impl Matcher for DebugPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    match &self.matcher {
+      Some(matcher) => matcher.borrow().is_consuming(),
+      None => false,
+    }
+  }
+
   fn get_name(&self) -> &str {
     "Debug"
   }
-- 
2.43.0


From 327ab15bcfcf6bd3d1ef650f056b0b389b664c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 30/31] fix: a root pattern imported by two names gives tokens
 of each name

The name was set on the shared root pattern, so the last one won.
---
 src/script/v1/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 0f24509..6afcbd8 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -399,11 +399,20 @@ fn build_matcher_from_tokens(
             return Err(ParseError::new_with_range("Error root import '_' must be named using 'import {{ _ as Name }}'", identifier_token.borrow().get_matched_range().clone()));
           }
 
-          import_root_matcher.borrow_mut().set_name(&import_name);
+          // The root pattern may be imported by several names, so the name
+          // is given to its tokens, not to the pattern itself
+          let token_name = import_name.clone();
+
+          let map_matcher = Map!(import_root_matcher.clone(), move |token, _, __| {
+            let mut _token = token.borrow_mut();
+            _token.set_name(&token_name);
+
+            TokenResult!(token.clone())
+          });
 
           // This should work all on its own, because this is the root pattern
           // and it implements its own scope when called
-          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(import_root_matcher.clone()));
+          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(map_matcher));
         } else {
           let reference_matcher = import_scope_context.borrow().get(&identifier);
 
-- 
2.43.0


From 1b7356db04a5e4c072cac4b281b02165527cf095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:05 +0000
Subject: [PATCH 31/31] fix: a pin at a number too large for any place fails
 instead of panicking

---
 src/matchers/pin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index 90f2808..070e62f 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -51,6 +51,8 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> Option<usize> {
           Some(offset)
         }
       }
+      // A number this large is outside of any source
+      Err(err) if *err.kind() == std::num::IntErrorKind::PosOverflow => None,
       Err(err) => {
         panic!(
           "Error while attempting to parse `Pin` start offset [{}]: {}",
-- 
2.43.0

