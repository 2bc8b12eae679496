From 38c0601e898bcb8a2d7bdb96096f86d87e0ce14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 01/99] fix: keep all seven substitutions when one is inserted
 or appended

---
 parser/src/substitutions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/substitutions.rs b/parser/src/substitutions.rs
index b8d5732..a9d9d3b 100644
--- a/parser/src/substitutions.rs
+++ b/parser/src/substitutions.rs
@@ -133,7 +133,7 @@ impl Substitutions {
       return;
     }
     self.flags |= sub.bitflag_pos();
-    for i in 0..6 {
+    for i in 0..7 {
       if self.order[i].is_none() {
         self.order[i] = Some(sub);
         return;
@@ -183,12 +183,12 @@ impl Substitutions {
       let Some(s) = existing else {
         continue;
       };
-      next[j] = Some(s);
-      j += 1;
-    }
-    if j == 0 || next[j - 1] != Some(sub) {
-      next[j] = Some(sub);
+      if s != sub {
+        next[j] = Some(s);
+        j += 1;
+      }
     }
+    next[j] = Some(sub);
     self.order = next;
     self.flags |= sub.bitflag_pos();
   }
-- 
2.43.0


From 57ba598b6d3ca1763c31a9a4ad5946583181952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 02/99] fix: verbatim substitution group enables callouts

---
 parser/src/tasks/customize_subs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/customize_subs.rs b/parser/src/tasks/customize_subs.rs
index c728198..9335f19 100644
--- a/parser/src/tasks/customize_subs.rs
+++ b/parser/src/tasks/customize_subs.rs
@@ -40,7 +40,7 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
         }
         StepOrGroup::Verbatim => {
           next.insert(Subs::SpecialChars);
-          next.insert(Subs::CharReplacement);
+          next.insert(Subs::Callouts);
         }
         StepOrGroup::SpecialChars => next.insert(Subs::SpecialChars),
         StepOrGroup::Callouts => next.insert(Subs::Callouts),
@@ -69,7 +69,7 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
           }
           StepOrGroup::Verbatim => {
             modify(&mut next, Subs::SpecialChars);
-            modify(&mut next, Subs::CharReplacement);
+            modify(&mut next, Subs::Callouts);
           }
           StepOrGroup::SpecialChars => {
             modify(&mut next, Subs::SpecialChars);
-- 
2.43.0


From 1d544a90191217c28106281a8079e9ea4ae10de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 03/99] verif: guarded hook exposing parser internals

---
 parser/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 41e7ff2..f8fe10c 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 mod base64;
 mod chunk;
@@ -66,6 +67,12 @@ mod internal {
   pub type Result<T> = std::result::Result<T, Diagnostic>;
 }
 
+/// internals exposed to the verification harness only
+#[cfg(asciidork_verif)]
+pub mod verif {
+  pub use crate::internal::*;
+}
+
 pub mod variants {
   pub mod token {
     pub use crate::token::TokenKind::*;
-- 
2.43.0


From a512500af7abaa5a317465c5df98a8b6b21c87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 04/99] fix: nested include ending an included file no longer
 ends the enclosing block

---
 parser/src/lexer/root_lexer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..af15e0f 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -196,9 +196,12 @@ impl<'arena> RootLexer<'arena> {
     if let Some(c) = self.sources[self.idx as usize].peek() {
       return Some(c);
     }
-    // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
+    // case: we're out of bytes, check if we're returning to a previous source,
+    // which might itself be out of bytes if its last line was an include
+    for prev_idx in self.source_stack.iter().rev() {
+      if let Some(c) = self.sources[*prev_idx as usize].peek() {
+        return Some(c);
+      }
     }
     // case: nothing left in any source, document EOF
     None
@@ -249,12 +252,14 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
-    let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
+    let mut cur_source = &self.sources[self.idx as usize];
+    for prev_idx in self.source_stack.iter().rev() {
+      if !cur_source.is_eof() {
+        break;
+      }
+      cur_source = &self.sources[*prev_idx as usize];
     }
+    cur_source.at_delimiter_line()
   }
 
   pub fn is_eof(&self) -> bool {
-- 
2.43.0


From 86cce4aefc716d09c5620cbc29199d1c7384148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 05/99] fix: untargeted endif on an unterminated last line is a
 directive

---
 parser/src/lexer/source_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..86df8fe 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -333,7 +333,8 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          // only `endif` may have an empty target: `endif::[]`
+          && self.remaining_len() >= if lexeme == b"endif" { 4 } else { 5 } =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From de05d03af454d95b390d88852551b2832c722e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 06/99] fix: text embedded in a conditional is located in the
 file that holds it

---
 parser/src/lexer/root_lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index af15e0f..af866a0 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -297,7 +297,10 @@ impl<'arena> RootLexer<'arena> {
     {
       match buf_loc {
         BufLoc::Repeat(loc) => token.loc = *loc,
-        BufLoc::Offset(offset) => token.loc = token.loc.offset(*offset),
+        BufLoc::Offset(offset) => {
+          token.loc = token.loc.offset(*offset);
+          token.loc.include_depth = self.idx;
+        }
         BufLoc::From(src_loc) => {
           token.loc = SourceLocation::new(
             src_loc.start + token.loc.start,
-- 
2.43.0


From d9664952adfb7f3841040751a20336696e39f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 07/99] fix: a doctype locked at the job level can't be changed
 by the document

---
 core/src/document_meta.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..6c302e2 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -73,6 +73,7 @@ impl DocumentMeta {
 
   pub fn clone_for_cell(&self) -> Self {
     let mut dm = self.clone();
+    dm.remove_attr("doctype");
     dm.set_doctype(DocType::Article);
     // toc in asciidoc cells are disconnected, see:
     // https://github.com/asciidoctor/asciidoctor/issues/4017
@@ -141,10 +142,12 @@ impl DocumentMeta {
     let value: AttrValue = value.into();
     match key {
       "doctype" => {
-        if let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) {
-          self.set_doctype(doctype);
-        } else {
+        let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) else {
           return Err("Invalid doctype: expected `article`, `book`, `manpage`, or `inline`".into());
+        };
+        // a doctype locked at the job level can't be changed
+        if !self.job_attrs.get(key).is_some_and(|attr| attr.readonly) {
+          self.set_doctype(doctype);
         }
       }
       "chapter-refsig" | "chapter-signifier" | "part-refsig" | "part-signifier"
-- 
2.43.0


From 5517d54ab4e855503e201ee07d3e76f4161e81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 08/99] fix: doctype given as a job attribute takes effect

---
 core/src/job_settings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/job_settings.rs b/core/src/job_settings.rs
index b4c5ae5..a40a9d0 100644
--- a/core/src/job_settings.rs
+++ b/core/src/job_settings.rs
@@ -60,15 +60,19 @@ impl From<JobSettings> for DocumentMeta {
     let JobSettings {
       mut job_attrs, doctype, safe_mode, ..
     } = settings;
+    let attr_doctype = job_attrs
+      .get("doctype")
+      .and_then(|attr| attr.value.str())
+      .and_then(|s| s.parse::<DocType>().ok());
     if let Some(doctype) = doctype {
       // if they set the doctype at the job level, it can't be changed
       job_attrs.insert_unchecked("doctype", JobAttr::readonly(doctype.to_str()));
-    } else {
+    } else if attr_doctype.is_none() {
       job_attrs.insert_unchecked("doctype", JobAttr::modifiable("article"));
     }
     let mut meta = DocumentMeta::new(safe_mode, job_attrs);
     meta.embedded = settings.embedded;
-    if let Some(doctype) = doctype {
+    if let Some(doctype) = doctype.or(attr_doctype) {
       meta.set_doctype(doctype);
     }
     meta
-- 
2.43.0


From c92094f45131314973b6f35e37a7755dd53b230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 09/99] fix: a command line attribute is read in full or
 refused

---
 cli/src/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/args.rs b/cli/src/args.rs
index 9dfae0d..052ae0b 100644
--- a/cli/src/args.rs
+++ b/cli/src/args.rs
@@ -65,7 +65,7 @@ pub enum Output {
 }
 
 lazy_static! {
-  pub static ref ATTR_RE: Regex = Regex::new(r"(!)?(@)?(\w(?:[\w-]*))(!)?(@)?(?:=(.+))?").unwrap();
+  pub static ref ATTR_RE: Regex = Regex::new(r"(?s)^(!)?(@)?(\w(?:[\w-]*))(!)?(@)?(?:=(.+)?)?$").unwrap();
 }
 
 fn parse_attr(input: &str) -> Result<(String, JobAttr), &'static str> {
-- 
2.43.0


From 44c69aacba9fb6c394a22267c7b6b1e16d8f5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 10/99] fix: only the soft-set marker is taken off a command
 line attribute's value

---
 cli/src/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/args.rs b/cli/src/args.rs
index 052ae0b..d5b2a98 100644
--- a/cli/src/args.rs
+++ b/cli/src/args.rs
@@ -83,7 +83,7 @@ fn parse_attr(input: &str) -> Result<(String, JobAttr), &'static str> {
     (true, true, None) => Ok((key, JobAttr::modifiable(false))),
     (false, true, Some(value)) => Ok((key, JobAttr::modifiable(value))),
     (false, false, Some(value)) if value.ends_with('@') => {
-      Ok((key, JobAttr::modifiable(value.trim_end_matches('@'))))
+      Ok((key, JobAttr::modifiable(&value[..value.len() - 1])))
     }
     (false, false, Some(value)) => Ok((key, JobAttr::readonly(value))),
     (true, _, Some(_)) => Err("Cannot unset attr with `!` AND provide value"),
-- 
2.43.0


From b13d040f247b21a258a988eb68890c1747a693f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 11/99] fix: an attribute soft-set for the job takes precedence
 over its built-in default

---
 core/src/document_meta.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 6c302e2..be5c79c 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -212,13 +212,17 @@ impl DocumentMeta {
     }
   }
 
-  fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
+  fn explicit_attr(&self, key: &str) -> Option<&AttrValue> {
     match self.doc_attrs.get(key) {
       Some(value) => Some(value),
-      None => match self.header_attrs.get(key) {
-        Some(value) => Some(value),
-        None => self.default_attrs.get(key),
-      },
+      None => self.header_attrs.get(key),
+    }
+  }
+
+  fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
+    match self.explicit_attr(key) {
+      Some(value) => Some(value),
+      None => self.default_attrs.get(key),
     }
   }
 
@@ -243,7 +247,7 @@ impl ReadAttr for DocumentMeta {
 
       key => match self.job_attrs.get(key) {
         Some(JobAttr { readonly: true, value }) => Some(value),
-        Some(JobAttr { readonly: false, value }) => self.resolve_attr(key).or(Some(value)),
+        Some(JobAttr { readonly: false, value }) => Some(self.explicit_attr(key).unwrap_or(value)),
         _ if key == "doctitle" => self
           .resolve_attr("doctitle")
           .or_else(|| self.resolve_attr("_asciidork_derived_doctitle")),
-- 
2.43.0


From 6fa8e512f57b4d62144c8584799239bf0457bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 12/99] fix: a skipped conditional block ends at its own endif
 and an endif closes the innermost conditional

---
 parser/src/line.rs                   | 14 ++++++++
 parser/src/tasks/directives/ifdef.rs | 51 ++++++++++++----------------
 parser/src/tasks/directives/mod.rs   |  1 +
 3 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..e2f9d8c 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1018,6 +1018,20 @@ impl<'arena> Line<'arena> {
     self.directive_endif_target().is_some()
   }
 
+  /// `true` for a conditional directive that needs an `endif`, i.e. not `ifdef::foo[one line]`
+  pub fn opens_conditional(&self) -> bool {
+    if !self.starts(TokenKind::Directive) {
+      return false;
+    }
+    let src = self.reassemble_src();
+    match regx::DIRECTIVE_IFDEF.captures(&src) {
+      Some(captures) => captures[2].is_empty(),
+      None => regx::DIRECTIVE_IFEVAL
+        .captures(&src)
+        .is_some_and(|captures| captures[1].is_empty()),
+    }
+  }
+
   pub fn directive_endif_target(&self) -> Option<BumpString<'arena>> {
     if !self
       .current_token()
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..c6e00b2 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -13,20 +13,23 @@ impl<'arena> Parser<'arena> {
 
     let attrs = captures.get(1).unwrap().as_str();
     let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
-
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
-      (true, "") => Ok(DirectiveAction::ReadNextLine),
+      (true, "") => {
+        self.ctx.ifdef_stack.push(self.string(attrs));
+        Ok(DirectiveAction::ReadNextLine)
+      }
       (true, embedded) => {
         let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump);
         src.push_str(embedded);
         src.push('\n');
         let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
         self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        Ok(match self.read_line()? {
+          Some(line) => DirectiveAction::SubstituteLine(line),
+          None => DirectiveAction::ReadNextLine,
+        })
       }
     }
   }
@@ -58,33 +61,23 @@ impl<'arena> Parser<'arena> {
     start_line: &Line<'arena>,
   ) -> Result<Option<Line<'arena>>> {
     let mut depth = 1;
-    loop {
-      let token = self.lexer.next_token();
-      if token.matches(TokenKind::Directive, "endif::") {
-        let mut line = Line::empty(self.bump);
-        line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
-        }
-        if line.is_directive_endif() {
-          depth -= 1;
-          if depth == 0 {
-            if self.lexer.at_newline() {
-              self.lexer.skip_newline();
-            }
-            break self.read_line();
-          }
+    while !self.lexer.is_eof() {
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        line.push(self.lexer.next_token());
+      }
+      self.lexer.skip_newline();
+      if line.is_directive_endif() {
+        depth -= 1;
+        if depth == 0 {
+          return self.read_line();
         }
-      } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
-      {
-        // TODO: we should probably check if the directive is valid
+      } else if line.opens_conditional() {
         depth += 1;
-      } else if self.lexer.is_eof() {
-        // TODO: should probably not be a skippable/non-strict error
-        self.err_line("This ifdef directive was never closed", start_line)?;
-        break Ok(None);
       }
     }
+    // TODO: should probably not be a skippable/non-strict error
+    self.err_line("This ifdef directive was never closed", start_line)?;
+    Ok(None)
   }
 }
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
-- 
2.43.0


From ee3f36b485e8568a2a4f4089de94147b503cb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 13/99] fix: conditional directives with one-letter names,
 trailing blanks or padded expressions are recognised

---
 core/src/regx.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..1cd1e91 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -28,15 +28,15 @@ lazy_static! {
   pub static ref DIRECTIVE_INCLUDE: Regex =
     Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
   pub static ref DIRECTIVE_IFDEF: Regex =
-    Regex::new(r#"^ifn?def::([^\[]+[^\[\s])\[(.*)\]$"#).unwrap();
-  pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]$"#).unwrap();
+    Regex::new(r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]\s*$"#).unwrap();
+  pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]\s*$"#).unwrap();
 }
 
 // ifeval directives
 lazy_static! {
   pub static ref DIRECTIVE_IFEVAL: Regex =
-    Regex::new(r#"^ifeval::(.*?)\[(.+?) *([=!><]=|[><]) *(.+)\]$"#).unwrap();
-  pub static ref DIRECTIVE_INVALID_IFEVAL: Regex = Regex::new(r#"^ifeval::(\[(.*)\])$"#).unwrap();
+    Regex::new(r#"^ifeval::(.*?)\[\s*(\S.*?) *([=!><]=|[><]) *(.*\S)\s*\]\s*$"#).unwrap();
+  pub static ref DIRECTIVE_INVALID_IFEVAL: Regex = Regex::new(r#"^ifeval::(\[(.*)\])\s*$"#).unwrap();
 }
 
 // line
-- 
2.43.0


From db9d29108a472e2bb878f1bb8731f321dd473ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 14/99] fix: ifeval compares values of different types: !=
 holds, numbers compare as numbers, a lone quote is no string

---
 parser/src/tasks/directives/ifeval.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..b4a6e08 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,8 +58,9 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
+    if expr.len() > 1
+      && (expr.starts_with('\'') && expr.ends_with('\'')
+        || expr.starts_with('"') && expr.ends_with('"'))
     {
       Value::String(self.string(&expr[1..expr.len() - 1]))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
@@ -101,8 +102,11 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
     (Value::Nil, Op::NotEq, Value::Nil) => false,
     (Value::Nil, Op::Eq, _) => false,
     (Value::Nil, Op::NotEq, _) => true,
+    // mixed numbers
+    (Value::Int(lhs), op, rhs @ Value::Float(_)) => eval(Value::Float(lhs as f32), op, rhs),
+    (lhs @ Value::Float(_), op, Value::Int(rhs)) => eval(lhs, op, Value::Float(rhs as f32)),
     // mixed types and unsupported ops
-    _ => false,
+    (_, op, _) => matches!(op, Op::NotEq),
   }
 }
 
-- 
2.43.0


From dac1ede6385fdacb97497e9676a5a5c45c1d8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 15/99] fix: attribute names in conditional directives and
 header values are read case-insensitively

---
 parser/src/tasks/directives/ifdef.rs | 6 +++---
 parser/src/tasks/directives/mod.rs   | 2 +-
 parser/src/tasks/parse_doc_attrs.rs  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index c6e00b2..92dee13 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -11,13 +11,13 @@ impl<'arena> Parser<'arena> {
       return Ok(DirectiveAction::Passthrough);
     };
 
-    let attrs = captures.get(1).unwrap().as_str();
+    let attrs = captures.get(1).unwrap().as_str().to_lowercase();
     let embedded_line = captures.get(2).unwrap();
-    match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
+    match (self.evaluate_ifdef(defined, &attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
       (true, "") => {
-        self.ctx.ifdef_stack.push(self.string(attrs));
+        self.ctx.ifdef_stack.push(self.string(&attrs));
         Ok(DirectiveAction::ReadNextLine)
       }
       (true, embedded) => {
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 5f7e5eb..22e44fd 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -31,7 +31,7 @@ impl<'arena> Parser<'arena> {
       self.err_line("This endif directive has no previous ifdef/ifndef", line)?;
       return Ok(DirectiveAction::Passthrough);
     };
-    if !endif_attrs.is_empty() && expected != &endif_attrs {
+    if !endif_attrs.is_empty() && expected.as_str() != endif_attrs.to_lowercase() {
       self.err_at_pattern(
         format!("Mismatched endif directive, expected `{}`", &expected),
         line.first_loc().unwrap(),
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..0ba267c 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -250,7 +250,7 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn replace_attr_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
     regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
       if let Some(AttrValue::String(replace)) =
-        self.document.meta.get(caps.get(1).unwrap().as_str())
+        self.document.meta.get(&caps.get(1).unwrap().as_str().to_lowercase())
       {
         replace
       } else {
-- 
2.43.0


From 1c996746871edf654a9dede506d20e216b4bd7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 16/99] fix: a delimited block is closed by the delimiter that
 follows a directive in it

---
 parser/src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..a647483 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -203,14 +203,23 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
-    while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+    let mut closing_line = None;
+    while closing_line.is_none() && !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
+      match self.read_line()? {
+        // a directive can be followed by the closing delimiter, which then isn't next to be read
+        Some(line) if line.is_delimiter(delimiter) => closing_line = Some(line),
+        Some(line) => additional_lines.push(line),
+        None => break,
+      }
     }
     lines.extend(additional_lines);
 
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    if let Some(line) = closing_line {
+      lines.push(line);
+    }
     Ok(Some(lines))
   }
 
-- 
2.43.0


From c0f1480bc61bb3b472a17b2731d27f1633380591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 17/99] fix: header attributes below a revision line starting
 with a digit or a comment block are set

---
 parser/src/parser.rs                 |  2 +-
 parser/src/tasks/parse_doc_attrs.rs  | 48 +++++++++++++++++-----------
 parser/src/tasks/parse_doc_header.rs | 16 +++++++++-
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a647483..f8798ab 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -122,7 +122,7 @@ impl<'arena> Parser<'arena> {
         if self.ctx.in_header
           && !matches!(
             token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            Colon | EqualSigns | Word | Digits | ForwardSlashes | Directive | OpenBracket
           )
         {
           self.ctx.in_header = false;
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 0ba267c..9b1b63b 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -171,25 +171,7 @@ impl<'arena> Parser<'arena> {
     }
 
     if self.ctx.in_header {
-      // https://docs.asciidoctor.org/asciidoc/latest/document/author-attribute-entries/
-      let mut attr_author: Option<Author> = None;
-      if name == "author"
-        && self.document.meta.authors.is_empty()
-        && let Some(author) = author_from_attr(&value)
-      {
-        attr_author = Some(author);
-      } else if name == "email"
-        && self.document.meta.authors.len() == 1
-        && let Some(author) = self.document.meta.authors.get_mut(0)
-      {
-        author.email = value.str().map(|s| s.to_string());
-      }
-      if let Err(err) = self.document.meta.insert_header_attr(name, value) {
-        self.err_at(err, attr_def_loc)?;
-      }
-      if let Some(author) = attr_author {
-        self.document.meta.add_author(author);
-      }
+      self.set_header_attr(name, value, attr_def_loc)?;
     }
 
     // the token now represents the entire attr def
@@ -201,6 +183,34 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  pub(crate) fn set_header_attr(
+    &mut self,
+    name: &str,
+    value: AttrValue,
+    loc: SourceLocation,
+  ) -> Result<()> {
+    // https://docs.asciidoctor.org/asciidoc/latest/document/author-attribute-entries/
+    let mut attr_author: Option<Author> = None;
+    if name == "author"
+      && self.document.meta.authors.is_empty()
+      && let Some(author) = author_from_attr(&value)
+    {
+      attr_author = Some(author);
+    } else if name == "email"
+      && self.document.meta.authors.len() == 1
+      && let Some(author) = self.document.meta.authors.get_mut(0)
+    {
+      author.email = value.str().map(|s| s.to_string());
+    }
+    if let Err(err) = self.document.meta.insert_header_attr(name, value) {
+      self.err_at(err, loc)?;
+    }
+    if let Some(author) = attr_author {
+      self.document.meta.add_author(author);
+    }
+    Ok(())
+  }
+
   // we're selectively opting in to some high-value pass-macro wrapping
   // shenanigans, because they are documented and likely appear frequently
   // in real world use cases, but these are major implementation leaks and
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..f94e198 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -193,7 +193,21 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     while lines.current_token().kind(AttrDef) {
       let line = lines.consume_current().unwrap();
-      header.loc.end = line.first_loc().unwrap().end;
+      let loc = line.first_loc().unwrap();
+      header.loc.end = loc.end;
+      // the line was read before we could tell that it belongs to the header
+      if let Some(def) = self.ctx.attr_defs.iter_mut().find(|def| def.loc == loc)
+        && !def.in_header
+      {
+        def.in_header = true;
+        let mut def = def.clone();
+        if def.has_lbrace
+          && let AttrValue::String(value) = &def.value
+        {
+          def.value = AttrValue::String(self.replace_attr_vals(value).into_owned());
+        }
+        self.set_header_attr(&def.name, def.value, def.loc)?;
+      }
     }
     Ok(())
   }
-- 
2.43.0


From 14aff4711d63343947a11f27d7e992e180e4a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 18/99] fix: directives, attribute entries and references in a
 comment block are inert, those after it are not

---
 parser/src/delimiter.rs              |  7 +++++++
 parser/src/parse_context.rs          | 28 ++++++++++++++++++++--------
 parser/src/parser.rs                 | 13 ++++++++-----
 parser/src/tasks/parse_doc_header.rs |  7 ++++++-
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index 01f315d..e5b3904 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -18,6 +18,13 @@ pub struct Delimiter {
   pub len: u8,
 }
 
+impl DelimiterKind {
+  pub const fn is_verbatim(&self) -> bool {
+    use DelimiterKind::*;
+    matches!(self, Listing | Literal | Passthrough | Comment)
+  }
+}
+
 impl From<DelimiterKind> for BlockContext {
   fn from(delimiter: DelimiterKind) -> Self {
     match delimiter {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..726bf0f 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -22,7 +22,8 @@ pub struct ParseContext<'arena> {
   pub passthrus: BumpVec<'arena, Option<InlineNodes<'arena>>>,
   pub max_include_depth: u16,
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
-  pub comment_delim_in_lines: bool,
+  /// delimiter of the verbatim or comment block the lines being read are in
+  pub verbatim_delimiter: Option<Delimiter>,
   pub in_header: bool,
   pub in_markdown_blockquote: bool,
   pub attr_defs: BumpVec<'arena, AttrDef>,
@@ -92,7 +93,7 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
+      verbatim_delimiter: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
@@ -120,7 +121,7 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
+      verbatim_delimiter: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
@@ -222,11 +223,22 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn within_block_comment(&self) -> bool {
-    self.comment_delim_in_lines
-      || self
-        .delimiter
-        .as_ref()
-        .is_some_and(|d| d.kind == DelimiterKind::Comment)
+    self
+      .verbatim_delimiter
+      .is_some_and(|delimiter| delimiter.kind == DelimiterKind::Comment)
+  }
+
+  pub fn track_verbatim_delimiter(&mut self, line: &Line<'_>) {
+    if let Some(open) = self.verbatim_delimiter {
+      if line.is_delimiter(open) {
+        self.verbatim_delimiter = None;
+      }
+    } else if line.is_any_delimiter() {
+      self.verbatim_delimiter = line
+        .current_token()
+        .and_then(|token| token.to_delimiter())
+        .filter(|delimiter| delimiter.kind.is_verbatim());
+    }
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index f8798ab..163bd43 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -120,13 +120,18 @@ impl<'arena> Parser<'arena> {
         // if we encounter a line like `|===` in the very first paragraph,
         // we know we're not in the header anymore, so any attrs refs can be set properly
         if self.ctx.in_header
+          && !self.ctx.within_block_comment()
+          && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
           && !matches!(
             token.kind,
             Colon | EqualSigns | Word | Digits | ForwardSlashes | Directive | OpenBracket
           )
         {
           self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+        } else if token.kind == Colon
+          && self.ctx.subs.attr_refs()
+          && !self.ctx.within_block_comment()
+        {
           self.try_parse_attr_def(&mut token)?;
         }
       }
@@ -154,7 +159,7 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
-    self.ctx.comment_delim_in_lines = false;
+    self.ctx.verbatim_delimiter = self.ctx.delimiter.filter(|d| d.kind.is_verbatim());
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
@@ -176,9 +181,7 @@ impl<'arena> Parser<'arena> {
           break;
         }
       }
-      if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
-      }
+      self.ctx.track_verbatim_delimiter(&line);
       lines.push(line);
       if self.lexer.at_newline() {
         break;
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index f94e198..4b03ba0 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -67,18 +67,23 @@ impl<'arena> Parser<'arena> {
     }
 
     let block_start = lines.consume_current().unwrap();
+    let delimiter = block_start.current_token().unwrap().to_delimiter();
     if lines.discard_until(Line::is_comment_block_delimiter) {
       let end_delim = lines.consume_current().unwrap();
       return Ok(end_delim.first_loc());
     }
 
     loop {
-      let Some(mut next_lines) = self.read_lines()? else {
+      self.ctx.delimiter = delimiter;
+      let next_lines = self.read_lines();
+      self.ctx.delimiter = None;
+      let Some(mut next_lines) = next_lines? else {
         self.err_line("Unclosed comment block, started here", &block_start)?;
         return Ok(None);
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
+        *lines = next_lines;
         return Ok(end_delim.first_loc());
       }
     }
-- 
2.43.0


From 469160011cf5aa47492e039a4d4d9e18eec77f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 19/99] fix: an attribute declared in the body takes effect
 before the lines after it are read

---
 parser/src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 163bd43..b87441c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -182,10 +182,19 @@ impl<'arena> Parser<'arena> {
         }
       }
       self.ctx.track_verbatim_delimiter(&line);
+      let ends_with_attr_decl = line.is_attr_decl();
       lines.push(line);
       if self.lexer.at_newline() {
         break;
       }
+      // an attr declared in the body must take effect before what follows it is read
+      if ends_with_attr_decl
+        && !self.ctx.in_header
+        && self.ctx.verbatim_delimiter.is_none()
+        && lines.iter().all(|l| l.is_comment() || l.is_attr_decl())
+      {
+        break;
+      }
     }
     if lines.is_empty() {
       Ok(None)
-- 
2.43.0


From de983c4595c061f36204d4e8f2e770875d21c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 20/99] fix: an attribute entry embedded in a conditional
 directive ends with the embedded text

---
 parser/src/lexer/root_lexer.rs      | 14 ++++++++++++++
 parser/src/lexer/source_lexer.rs    |  5 +++++
 parser/src/tasks/parse_doc_attrs.rs | 27 +++++++++++++++++++++------
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index af866a0..685461a 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -113,6 +113,20 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf.is_none()
   }
 
+  /// the position at which the text embedded in a directive ends, if that is what is being read
+  pub fn embedded_line_end(&self) -> Option<u32> {
+    match &self.tmp_buf {
+      Some((buf_lexer, BufLoc::Offset(offset))) => Some(offset + buf_lexer.len_without_newline()),
+      _ => None,
+    }
+  }
+
+  pub fn skip_embedded_line(&mut self) {
+    if let Some((buf_lexer, _)) = &mut self.tmp_buf {
+      buf_lexer.pos = buf_lexer.len_without_newline();
+    }
+  }
+
   pub fn adjust_offset(&mut self, offset_adjustment: u32) {
     self.sources[self.idx as usize].offset = offset_adjustment;
   }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 86df8fe..cfc3e17 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -53,6 +53,11 @@ impl<'arena> SourceLexer<'arena> {
     }
   }
 
+  pub fn len_without_newline(&self) -> u32 {
+    let newline = u32::from(self.src.last() == Some(&b'\n'));
+    self.src.len() as u32 - newline
+  }
+
   pub fn next_token(&mut self) -> Option<Token<'arena>> {
     if let Some(token) = self.delimiter_line() {
       return Some(token);
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 9b1b63b..7b4dda5 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -6,6 +6,9 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn try_parse_attr_def(&mut self, token: &mut Token<'arena>) -> Result<()> {
     let start_loc = token.loc.start;
     let depth = token.loc.include_depth;
+    // an attr def embedded in a conditional directive ends with the embedded text
+    let embedded_end = self.lexer.embedded_line_end();
+    let end = embedded_end.unwrap_or(u32::MAX);
 
     // we need at least 4 bytes to have a valid attr def: `:a:\n`
     if self.lexer.byte_at(start_loc + 3, depth).is_none() {
@@ -28,11 +31,11 @@ impl<'arena> Parser<'arena> {
     // test attr def start, and bail early
     let mut pos = start_loc + 1;
     let mut negated = Negation::None;
-    if self.lexer.byte_at(pos, depth) == Some(b'!') {
+    if self.byte_before_end(pos, depth, end) == Some(b'!') {
       negated = Negation::Leading;
       pos += 1;
     };
-    let first_char = self.lexer.byte_at(pos, depth).unwrap();
+    let first_char = self.byte_before_end(pos, depth, end).unwrap_or(b' ');
     if !first_char.is_ascii_alphanumeric() && first_char != b'_' {
       return Ok(());
     }
@@ -45,7 +48,7 @@ impl<'arena> Parser<'arena> {
     let mut has_lbrace = false;
     let mut def_start = u32::MAX;
     loop {
-      match (state, self.lexer.byte_at(pos, depth)) {
+      match (state, self.byte_before_end(pos, depth, end)) {
         (State::InName, Some(b)) if is_attr_word_char(b) => {}
         (State::InName, Some(b'!')) => {
           negated = Negation::Trailing;
@@ -66,7 +69,7 @@ impl<'arena> Parser<'arena> {
         (State::TrailingBang, _) => {
           return Ok(());
         }
-        (State::AfterName, Some(b'\r')) if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+        (State::AfterName, Some(b'\r')) if self.byte_before_end(pos + 1, depth, end) == Some(b'\n') => {
           break;
         }
         (State::AfterName, Some(b'\n') | None) => break,
@@ -94,7 +97,7 @@ impl<'arena> Parser<'arena> {
 
     // gather line continuations
     loop {
-      if attr_def_string.ends_with(" \\") {
+      if embedded_end.is_none() && attr_def_string.ends_with(" \\") {
         attr_def_string.pop();
 
         // https://docs.asciidoctor.org/asciidoc/latest/attributes/wrap-values/#hard
@@ -178,11 +181,23 @@ impl<'arena> Parser<'arena> {
     token.kind = TokenKind::AttrDef;
     token.loc = attr_def_loc;
     token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
-    self.lexer.set_pos(pos);
+    if embedded_end.is_some() {
+      self.lexer.skip_embedded_line();
+    } else {
+      self.lexer.set_pos(pos);
+    }
 
     Ok(())
   }
 
+  fn byte_before_end(&self, pos: u32, depth: u16, end: u32) -> Option<u8> {
+    if pos < end {
+      self.lexer.byte_at(pos, depth)
+    } else {
+      None
+    }
+  }
+
   pub(crate) fn set_header_attr(
     &mut self,
     name: &str,
-- 
2.43.0


From e8287780f7ac18decad9a1baf454e3760291e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 21/99] fix: an attribute reference in a skipped conditional's
 expression does not hide it

---
 parser/src/tasks/directives/ifdef.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index 92dee13..df71112 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -64,7 +64,11 @@ impl<'arena> Parser<'arena> {
     while !self.lexer.is_eof() {
       let mut line = Line::empty(self.bump);
       while !self.lexer.at_newline() && !self.lexer.is_eof() {
-        line.push(self.lexer.next_token());
+        let mut token = self.lexer.next_token();
+        if token.kind == TokenKind::AttrRef {
+          token.kind = TokenKind::Word; // not replaced in skipped lines
+        }
+        line.push(token);
       }
       self.lexer.skip_newline();
       if line.is_directive_endif() {
-- 
2.43.0


From 18e4031707270966cd540883cfa621627c1adab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 22/99] fix: an attribute value is not searched for further
 references

---
 parser/src/lexer/root_lexer.rs | 14 ++++++++++----
 parser/src/tasks/attr_refs.rs  |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 685461a..62ebc48 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -12,6 +12,8 @@ pub struct RootLexer<'arena> {
   sources: BumpVec<'arena, SourceLexer<'arena>>,
   plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   tmp_buf: Option<(SourceLexer<'arena>, BufLoc)>,
+  /// what is left of the buffer that was being read when `tmp_buf` was set
+  outer_buf: Option<(SourceLexer<'arena>, BufLoc)>,
 }
 
 #[derive(Debug)]
@@ -31,6 +33,7 @@ impl<'arena> RootLexer<'arena> {
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
       tmp_buf: None,
+      outer_buf: None,
     }
   }
 
@@ -43,6 +46,7 @@ impl<'arena> RootLexer<'arena> {
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_str(src, file, bump)],
       tmp_buf: None,
+      outer_buf: None,
     }
   }
 
@@ -55,6 +59,7 @@ impl<'arena> RootLexer<'arena> {
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_byte_slice(bytes, file, bump)],
       tmp_buf: None,
+      outer_buf: None,
     }
   }
 
@@ -106,11 +111,12 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn set_tmp_buf(&mut self, buf: &str, loc: BufLoc) {
+    self.outer_buf = self.tmp_buf.take();
     self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
   }
 
-  pub const fn tmp_buf_is_empty(&self) -> bool {
-    self.tmp_buf.is_none()
+  pub const fn reading_replacement(&self) -> bool {
+    matches!(&self.tmp_buf, Some((_, BufLoc::Repeat(_) | BufLoc::From(_))))
   }
 
   /// the position at which the text embedded in a directive ends, if that is what is being read
@@ -225,7 +231,7 @@ impl<'arena> RootLexer<'arena> {
     if let Some((tmp_lexer, _)) = &mut self.tmp_buf {
       tmp_lexer.pos += 1;
       if tmp_lexer.is_eof() {
-        self.tmp_buf = None;
+        self.tmp_buf = self.outer_buf.take();
       }
       return;
     }
@@ -324,7 +330,7 @@ impl<'arena> RootLexer<'arena> {
         }
       }
       if buf_lexer.is_eof() {
-        self.tmp_buf = None
+        self.tmp_buf = self.outer_buf.take()
       }
       return token;
     }
diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..992c539 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -47,9 +47,13 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     if self.ctx.replacing_attr {
       token.attr_replacement = true;
-      if self.lexer.tmp_buf_is_empty() {
+      if !self.lexer.reading_replacement() {
         self.ctx.replacing_attr = false;
       }
+      // a value is not searched for further references
+      if token.kind(TokenKind::AttrRef) {
+        token.kind = TokenKind::Word;
+      }
     }
     if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
       match self.document.meta.get(&token.lowercase_attr_name()) {
@@ -72,9 +76,9 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From 33e220eadd7b785f316918b3093bf4c286338656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 23/99] fix: text embedded in a conditional directive is read
 as it stands in the source

---
 parser/src/line.rs   | 7 +++++++
 parser/src/parser.rs | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index e2f9d8c..c10d862 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1018,6 +1018,13 @@ impl<'arena> Line<'arena> {
     self.directive_endif_target().is_some()
   }
 
+  pub fn is_conditional_directive(&self) -> bool {
+    self.starts(TokenKind::Directive)
+      && self
+        .current_token()
+        .is_some_and(|token| matches!(token.lexeme.as_str(), "ifdef::" | "ifndef::" | "ifeval::"))
+  }
+
   /// `true` for a conditional directive that needs an `endif`, i.e. not `ifdef::foo[one line]`
   pub fn opens_conditional(&self) -> bool {
     if !self.starts(TokenKind::Directive) {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index b87441c..76d038d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -135,7 +135,12 @@ impl<'arena> Parser<'arena> {
           self.try_parse_attr_def(&mut token)?;
         }
       }
-      self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
+      if token.kind == AttrRef && line.is_conditional_directive() {
+        token.kind = Word; // the text of a conditional is replaced when it is used
+        line.push(token);
+      } else {
+        self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
+      }
     }
     self.lexer.skip_newline();
     if drop_line {
-- 
2.43.0


From 01e6c9128407922f225c2da1c42f25fe0d3e0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 24/99] fix: an empty table does not exhaust the memory, nor
 does a directive swallow a blank line of a listing

---
 parser/src/parser.rs                      | 3 +++
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 76d038d..26cb026 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -183,6 +183,9 @@ impl<'arena> Parser<'arena> {
         } else if !ignored_removed_include_line {
           // this case can happen if our first non-empty line was an include directive
           // this case happens only when we DROP a line
+          if self.ctx.verbatim_delimiter.is_some() {
+            lines.push(line);
+          }
           break;
         }
       }
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..2c67be5 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if cells.len() == remaining_room && ctx.num_cols > 0 {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
-- 
2.43.0


From 1ba5fb0e458531e3cca723872f6045ef406a104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 25/99] fix: text after a verbatim block and an indented
 listing are read whole, whatever blank lines precede them

---
 parser/src/line.rs              | 12 ++++++++++++
 parser/src/parser.rs            | 23 +++++++++++++++++------
 parser/src/tasks/parse_block.rs | 16 ++++++++++------
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index c10d862..4f0423d 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1014,6 +1014,18 @@ impl<'arena> Line<'arena> {
     self.starts(TokenKind::AttrDef)
   }
 
+  /// `true` for a line that neither starts nor continues a paragraph when it is the first of a block
+  pub fn is_never_paragraph(&self) -> bool {
+    self.is_comment()
+      || self.is_attr_decl()
+      || self.is_any_delimiter()
+      || self.is_heading()
+      || self.is_block_attr_list()
+      || self.is_block_anchor()
+      || self.is_chunk_title()
+      || self.is_block_macro()
+  }
+
   pub fn is_directive_endif(&self) -> bool {
     self.directive_endif_target().is_some()
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 26cb026..6a23626 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -199,7 +199,9 @@ impl<'arena> Parser<'arena> {
       if ends_with_attr_decl
         && !self.ctx.in_header
         && self.ctx.verbatim_delimiter.is_none()
-        && lines.iter().all(|l| l.is_comment() || l.is_attr_decl())
+        && lines.iter().fold(true, |between_blocks, line| {
+          line.is_any_delimiter() || between_blocks && line.is_never_paragraph()
+        })
       {
         break;
       }
@@ -214,12 +216,21 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn read_lines_until(
     &mut self,
     delimiter: Delimiter,
-  ) -> Result<Option<ContiguousLines<'arena>>> {
-    let Some(mut lines) = self.read_lines()? else {
-      return Ok(None);
+  ) -> Result<ContiguousLines<'arena>> {
+    let mut lines = match self.peeked_lines.take() {
+      Some(peeked) => peeked,
+      None => {
+        self.lexer.consume_empty_lines();
+        ContiguousLines::empty(self.bump)
+      }
     };
+    self.ctx.verbatim_delimiter = Some(delimiter).filter(|d| d.kind.is_verbatim());
+    // blank lines that follow a directive aren't seen by the lexer as such
+    while lines.current_satisfies(|l| l.is_empty()) {
+      lines.consume_current();
+    }
     if lines.any(|l| l.is_delimiter(delimiter)) {
-      return Ok(Some(lines));
+      return Ok(lines);
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
@@ -240,7 +251,7 @@ impl<'arena> Parser<'arena> {
     if let Some(line) = closing_line {
       lines.push(line);
     }
-    Ok(Some(lines))
+    Ok(lines)
   }
 
   fn at_delimiter(&self, delimiter: Delimiter) -> bool {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..4689e87 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -347,18 +347,22 @@ impl<'arena> Parser<'arena> {
         | Context::Comment
         | Context::Verse
     ) {
-      let mut lines = self
-        .read_lines_until(delimiter)?
-        .unwrap_or_else(|| ContiguousLines::new(Deq::new(self.bump)));
+      let mut lines = self.read_lines_until(delimiter)?;
 
       if let Some(indent) = meta
         .attrs
         .named("indent")
         .and_then(|s| s.parse::<usize>().ok())
       {
-        let delimiter = lines.pop();
-        lines.set_indentation(indent);
-        delimiter.map(|d| lines.push(d));
+        let mut content = ContiguousLines::with_capacity(lines.len(), self.bump);
+        while !lines.is_empty() && !lines.current_satisfies(|l| l.is_delimiter(delimiter)) {
+          content.push(lines.consume_current().unwrap());
+        }
+        content.set_indentation(indent);
+        while let Some(line) = lines.consume_current() {
+          content.push(line);
+        }
+        lines = content;
       }
 
       if (context == Context::Listing || context == Context::Literal)
-- 
2.43.0


From 226bd3796406f03345907d9cb361287d477978ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 26/99] fix: a listing that starts with blank lines below a
 directive is read

---
 parser/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 6a23626..d7cd6d8 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -239,6 +239,7 @@ impl<'arena> Parser<'arena> {
       match self.read_line()? {
         // a directive can be followed by the closing delimiter, which then isn't next to be read
         Some(line) if line.is_delimiter(delimiter) => closing_line = Some(line),
+        Some(line) if line.is_empty() && lines.is_empty() && additional_lines.is_empty() => {}
         Some(line) => additional_lines.push(line),
         None => break,
       }
-- 
2.43.0


From 4bc21112d2443210b81a71726014ee38f4bd43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 27/99] fix: reading on below an attribute entry stays in the
 source that holds it

---
 parser/src/parser.rs            | 11 ++++++-----
 parser/src/tasks/parse_block.rs | 11 +++++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d7cd6d8..54dd800 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -165,8 +165,11 @@ impl<'arena> Parser<'arena> {
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
     self.ctx.verbatim_delimiter = self.ctx.delimiter.filter(|d| d.kind.is_verbatim());
-    if let Some(peeked) = self.peeked_lines.take() {
-      return Ok(Some(peeked));
+    if let Some(mut peeked) = self.peeked_lines.take() {
+      peeked.discard_until(|line| !line.is_empty());
+      if !peeked.is_empty() {
+        return Ok(Some(peeked));
+      }
     }
     self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
@@ -226,9 +229,7 @@ impl<'arena> Parser<'arena> {
     };
     self.ctx.verbatim_delimiter = Some(delimiter).filter(|d| d.kind.is_verbatim());
     // blank lines that follow a directive aren't seen by the lexer as such
-    while lines.current_satisfies(|l| l.is_empty()) {
-      lines.consume_current();
-    }
+    lines.discard_until(|line| !line.is_empty());
     if lines.any(|l| l.is_delimiter(delimiter)) {
       return Ok(lines);
     }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 4689e87..20e08ee 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -113,8 +113,15 @@ impl<'arena> Parser<'arena> {
         }
         lines.consume_current(); // attr def
         if !lines.is_empty() {
-          // re-parse adjoining chunk, to resolve attr def
-          self.lexer.set_pos(def.loc.end);
+          // re-parse adjoining chunk, to resolve attr def, unless it isn't what follows in the source
+          let SourceLocation { end, include_depth, .. } = def.loc;
+          if include_depth == self.lexer.source_idx()
+            && matches!(self.lexer.byte_at(end, include_depth), Some(b'\n' | b'\r') | None)
+          {
+            self.lexer.set_pos(end);
+          } else {
+            self.restore_lines(lines);
+          }
         }
         return Ok(Some(Block {
           meta,
-- 
2.43.0


From 12f30c417d107bf31f64d4398b727efe81b7d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 28/99] fix: include target whose scheme comes from an
 attribute needs allow-uri-read

---
 .../directives/includes/process_includes.rs   | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..4f26ccf 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -30,10 +30,8 @@ impl<'arena> Parser<'arena> {
       ));
     }
 
-    if directive.target_is_uri
-      && (self.document.meta.safe_mode > SafeMode::Server
-        || !self.document.meta.is_true("allow-uri-read"))
-    {
+    let may_read_uri = self.may_read_uri();
+    if directive.target_is_uri && !may_read_uri {
       self.target_err(
         "Cannot include URL contents (allow-uri-read not enabled)",
         &directive,
@@ -75,6 +73,16 @@ impl<'arena> Parser<'arena> {
       }
     };
 
+    if target.is_uri() && !may_read_uri {
+      self.target_err(
+        "Cannot include URL contents (allow-uri-read not enabled)",
+        &directive,
+      )?;
+      return Ok(DirectiveAction::SubstituteLine(
+        self.substitute_link_for_include(&directive),
+      ));
+    }
+
     let target_abspath = target.path();
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(target, &mut buffer, self.document.meta.safe_mode) {
@@ -152,7 +160,9 @@ impl<'arena> Parser<'arena> {
       let has_spaces = target.contains(' ');
       let target = self.string(target);
       let first_token = line.consume_current().unwrap();
-      let target_is_uri = line.current_token().kind(TokenKind::UriScheme);
+      // the scheme might only be known once an attribute reference was resolved
+      let target_is_uri =
+        line.current_token().kind(TokenKind::UriScheme) || Path::new(target.as_str()).is_uri();
       let num_target_tokens = line.first_nonescaped(TokenKind::OpenBracket).unwrap().1;
       line.discard(num_target_tokens + 1); // including open bracket
       Ok(Some(IncludeDirective {
@@ -168,6 +178,11 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  pub(crate) fn may_read_uri(&self) -> bool {
+    self.document.meta.safe_mode <= SafeMode::Server
+      && self.document.meta.is_true("allow-uri-read")
+  }
+
   fn substitute_link_for_include(&mut self, directive: &IncludeDirective<'arena>) -> Line<'arena> {
     let mut link_src = directive.line_src.replace("include::", "link:");
     link_src.push('\n');
-- 
2.43.0


From 469799efbe6a87b5c00939b3e461c9bbebff1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 29/99] fix: include depth counts the nesting of includes, not
 the files read so far

---
 parser/src/lexer/root_lexer.rs                | 25 ++++++++++++-------
 .../directives/includes/process_includes.rs   | 12 +++++++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 62ebc48..1fa3923 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -85,6 +85,11 @@ impl<'arena> RootLexer<'arena> {
     )
   }
 
+  /// sources are identified by a `u16` in every source location
+  pub fn can_push_source(&self) -> bool {
+    self.sources.len() < u16::MAX as usize
+  }
+
   pub fn push_source(
     &mut self,
     src_file: SourceFile,
@@ -304,7 +309,7 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
+    let offset_loc = SourceLocation::new(offset, offset, self.idx);
     let before_offset = self.line_number(offset_loc) - 1;
     diagnostics
       .iter_mut()
@@ -354,18 +359,20 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].truncate();
   }
 
+  /// the number of includes that led to the current source
   pub const fn include_depth(&self) -> u16 {
-    self.idx
+    self.source_stack.len() as u16
   }
 
+  /// the innermost depth limit in effect, with the include depth of the source it was set for
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
-    self
-      .sources
-      .iter()
-      .enumerate()
-      .fold(None, |current, (i, src)| {
-        src.max_include_depth.map(|d| (d, i as u16)).or(current)
-      })
+    let mut depth = self.include_depth();
+    let mut max_depth = self.sources[self.idx as usize].max_include_depth;
+    while max_depth.is_none() && depth > 0 {
+      depth -= 1;
+      max_depth = self.sources[self.source_stack[depth as usize] as usize].max_include_depth;
+    }
+    max_depth.map(|max| (max, depth))
   }
 
   pub fn register_plugin_macros(&mut self, names: &[impl AsRef<str>]) {
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 4f26ccf..50bd577 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -49,6 +49,14 @@ impl<'arena> Parser<'arena> {
       return Ok(DirectiveAction::Passthrough);
     }
 
+    if !self.lexer.can_push_source() {
+      self.err_line_starting(
+        "Maximum number of includes exceeded",
+        directive.first_token.loc,
+      )?;
+      return Ok(DirectiveAction::Passthrough);
+    }
+
     let Some(resolver) = self.include_resolver.as_mut() else {
       self.err_token_full(
         "No resolver supplied for include directive",
@@ -243,8 +251,8 @@ impl<'arena> Parser<'arena> {
       .lexer
       .max_include_depth()
       .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
+    let abs_depth = u16::min(rel_depth.saturating_add(stack_depth), self.ctx.max_include_depth);
+    if self.lexer.include_depth() >= abs_depth {
       Some(rel_depth)
     } else {
       None
-- 
2.43.0


From 0e8322e1ac0b4d703a43cf1c90e4fcaae1170ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 30/99] fix: absolute include target in a document read from
 stdin

---
 parser/src/tasks/directives/includes/target.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..b26cb3f 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -21,18 +21,16 @@ pub fn prepare(
     let abspath = base_dir.join(target);
     return Ok(Target::FilePath(abspath.to_string()));
   }
+  if !target.is_relative() {
+    return Ok(target.into());
+  }
   match src_file {
     Src::Path(src) => {
-      let abspath = if target.is_relative() {
-        let dir = Path::new(src.dirname());
-        dir.join(target)
-      } else {
-        target
-      };
-      Ok(abspath.into())
+      let dir = Path::new(src.dirname());
+      Ok(dir.join(target).into())
     }
-    Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
-    Src::Tmp => unreachable!(),
+    Src::Stdin { cwd } => Ok(cwd.join(target).into()),
+    Src::Tmp => Err(Err::BaseDirRequired),
   }
 }
 
-- 
2.43.0


From ab9140e93e6714fa5f18ce6dfc5dd7dccb55d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 31/99] fix: image and docinfo URIs need allow-uri-read
 wherever the scheme comes from

---
 parser/src/docinfo.rs                 |  3 +++
 parser/src/tasks/parse_image_block.rs | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..a429454 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -80,6 +80,9 @@ impl<'arena> Parser<'arena> {
     file: &str,
   ) -> Option<DocInfoFragment<'arena>> {
     let target = docinfo_target(&self.document.meta, resolver, file);
+    if target.is_uri() && !self.may_read_uri() {
+      return None;
+    }
     let mut buffer = BumpVec::new_in(self.bump);
     resolver
       .resolve(target, &mut buffer, self.document.meta.safe_mode)
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..a69a74f 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -32,6 +32,8 @@ impl<'arena> Parser<'arena> {
     macro_attrs: &AttrList<'arena>,
     block_attrs: Option<&MultiAttrList<'arena>>,
   ) -> Result<ImageKind<'arena>> {
+    // the scheme might only be known once an attribute reference was resolved
+    let target_is_uri = target_is_uri || Path::new(target.src.as_str()).is_uri();
     if self.should_resolve_as_inline_svg(target, macro_attrs, block_attrs) {
       self.parse_inline_svg(target, target_is_uri, macro_attrs)
     } else if !self.document.meta.is_true("data-uri")
@@ -209,6 +211,7 @@ impl<'arena> Parser<'arena> {
     kind: IncludeKind,
   ) -> Result<Option<BumpVec<'arena, u8>>> {
     let err_str = kind.err_str();
+    let may_read_uri = self.may_read_uri();
     let Some(resolver) = self.include_resolver.as_mut() else {
       self.err_at(
         format!("No include resolver supplied for {err_str}"),
@@ -217,21 +220,13 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     };
 
-    if target_is_uri && !self.document.meta.is_true("allow-uri-read") {
-      self.err_at(
-        "Cannot include URL contents (allow-uri-read not enabled)",
-        err_loc,
-      )?;
-      return Ok(None);
-    }
-
     let include_target = if target_is_uri {
       IncludeTarget::Uri(target.to_string())
     } else if let Some(base_dir) = resolver.get_base_dir().map(Path::new) {
       let mut path = base_dir;
       if let Some(imagesdir) = self.document.meta.str(kind.image_dir_attr()) {
         let dir_is_uri = regx::URI_SNIFF.is_match(imagesdir);
-        if dir_is_uri && !self.document.meta.is_true("allow-uri-read") {
+        if dir_is_uri && !may_read_uri {
           self.err_at(
             "Cannot include URL contents (allow-uri-read not enabled)",
             err_loc,
@@ -257,6 +252,14 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     };
 
+    if include_target.is_uri() && !may_read_uri {
+      self.err_at(
+        "Cannot include URL contents (allow-uri-read not enabled)",
+        err_loc,
+      )?;
+      return Ok(None);
+    }
+
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(include_target, &mut buffer, self.document.meta.safe_mode) {
       Ok(_) => {
-- 
2.43.0


From 9b38df26344727b2c94ef1560b549dfc42b24518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 32/99] fix: table cells keep to the include depth limit

---
 parser/src/parser.rs                          |  1 +
 .../directives/includes/process_includes.rs   | 21 ++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 54dd800..73af71d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -82,6 +82,7 @@ impl<'arena> Parser<'arena> {
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(offset);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
+    cell_parser.ctx.max_include_depth = self.remaining_include_depth();
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
 
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 50bd577..f9ff263 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -247,17 +247,28 @@ impl<'arena> Parser<'arena> {
   }
 
   fn exceeded_max_include_depth(&self) -> Option<u16> {
-    let (rel_depth, stack_depth) = self
-      .lexer
-      .max_include_depth()
-      .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth.saturating_add(stack_depth), self.ctx.max_include_depth);
+    let (rel_depth, abs_depth) = self.include_depth_limit();
     if self.lexer.include_depth() >= abs_depth {
       Some(rel_depth)
     } else {
       None
     }
   }
+
+  /// how many more includes may be nested in what is being read
+  pub(crate) fn remaining_include_depth(&self) -> u16 {
+    let (_, abs_depth) = self.include_depth_limit();
+    abs_depth.saturating_sub(self.lexer.include_depth())
+  }
+
+  fn include_depth_limit(&self) -> (u16, u16) {
+    let (rel_depth, stack_depth) = self
+      .lexer
+      .max_include_depth()
+      .unwrap_or((self.ctx.max_include_depth, 0));
+    let abs_depth = u16::min(rel_depth.saturating_add(stack_depth), self.ctx.max_include_depth);
+    (rel_depth, abs_depth)
+  }
 }
 
 fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump: &'arena Bump) {
-- 
2.43.0


From cae1ed54068dcd22af4152ad3357bff54f3e09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 33/99] fix: a selection of lines or tags doesn't add a blank
 line when it reaches the end of the file

---
 .../src/tasks/directives/includes/normalize_includes.rs  | 9 ++++++++-
 parser/src/tasks/directives/includes/tags.rs             | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..5f9e198 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -57,7 +57,7 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    for (i, line) in source_lines(bytes).enumerate() {
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
@@ -153,6 +153,13 @@ fn from_utf16_in(utf16: BumpVec<u16>, dest: &mut BumpVec<u8>, bump: &Bump) -> bo
   }
 }
 
+/// the lines of a source, where a newline ends the last line and doesn't start another
+pub(super) fn source_lines(src: &[u8]) -> impl Iterator<Item = &[u8]> {
+  src
+    .split_inclusive(|&b| b == b'\n')
+    .map(|line| line.strip_suffix(b"\n").unwrap_or(line))
+}
+
 fn parse_line_ranges(s: &str) -> Vec<Range<usize>> {
   let mut ranges = Vec::new();
   s.split([',', ';']).for_each(|part| {
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..73c1537 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -3,6 +3,7 @@ use std::collections::HashSet;
 use lazy_static::lazy_static;
 use regex::bytes::Regex;
 
+use super::normalize_includes::source_lines;
 use crate::internal::*;
 
 #[derive(Debug, PartialEq, Eq)]
@@ -192,7 +193,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
-    let lines = src.split(|&c| c == b'\n');
+    let lines = source_lines(src);
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
-- 
2.43.0


From 7955d0fa5ae3be69f97d3d1fa29038291669adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 34/99] fix: huge line number in an include's lines attribute

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 5f9e198..15e1e2c 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -173,10 +173,10 @@ fn parse_line_ranges(s: &str) -> Vec<Range<usize>> {
       } else if let Ok(high_n) = high.parse::<usize>()
         && low_n <= high_n
       {
-        ranges.push(low_n..high_n + 1);
+        ranges.push(low_n..high_n.saturating_add(1));
       }
     } else if let Ok(n) = part.parse::<usize>() {
-      ranges.push(n..n + 1);
+      ranges.push(n..n.saturating_add(1));
     }
   });
   ranges
-- 
2.43.0


From b34aac1db53c039e30caa9b9c6a03a1d7185011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 35/99] fix: byte order marks of included files (invalid UTF-8
 behind one panicked, one was kept with encoding set)

---
 .../directives/includes/normalize_includes.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 15e1e2c..22c902b 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -73,16 +73,6 @@ impl<'arena> Parser<'arena> {
     encoding: Option<&str>,
     bytes: &mut BumpVec<u8>,
   ) -> std::result::Result<(), &'static str> {
-    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding {
-      return self.convert_utf16_le(bytes);
-    }
-
-    // UTF-8 BOM
-    if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
-      bytes.drain(0..3);
-      return Ok(());
-    }
-
     // UTF-16 BOM, little endian
     if bytes.len() >= 2 && bytes[0..2] == [0xFF, 0xFE] {
       bytes.drain(0..2);
@@ -108,6 +98,15 @@ impl<'arena> Parser<'arena> {
       }
     }
 
+    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding {
+      return self.convert_utf16_le(bytes);
+    }
+
+    // UTF-8 BOM
+    if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
+      bytes.drain(0..3);
+    }
+
     // TODO: doctor supports iso-8859-1, + all encodings ruby supports
     // we could use encoding_rs for this, but might not be any demand
     if std::str::from_utf8(bytes).is_err() {
-- 
2.43.0


From 09e6fede73c9bc3c38d3a9ccf34d37a9a9a4cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 36/99] fix: include directive with a target of one character
 or whitespace behind it

---
 parser/src/tasks/directives/includes/process_includes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index f9ff263..836a985 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -156,10 +156,12 @@ impl<'arena> Parser<'arena> {
     &mut self,
     line: &mut Line<'arena>,
   ) -> Result<Option<IncludeDirective<'arena>>> {
+    let trailing_space = if line.ends(Whitespace) { line.pop() } else { None };
     if line.num_tokens() < 4
       || !line.contains_nonescaped(OpenBracket)
       || !line.ends_with_nonescaped(CloseBracket)
     {
+      trailing_space.into_iter().for_each(|t| line.push_nonpass(t));
       return Ok(None);
     }
     let src = line.reassemble_src();
@@ -182,6 +184,7 @@ impl<'arena> Parser<'arena> {
         attrs: self.parse_block_macro_attr_list(line)?,
       }))
     } else {
+      trailing_space.into_iter().for_each(|t| line.push_nonpass(t));
       Ok(None)
     }
   }
@@ -192,7 +195,7 @@ impl<'arena> Parser<'arena> {
   }
 
   fn substitute_link_for_include(&mut self, directive: &IncludeDirective<'arena>) -> Line<'arena> {
-    let mut link_src = directive.line_src.replace("include::", "link:");
+    let mut link_src = directive.line_src.replacen("include::", "link:", 1);
     link_src.push('\n');
     let offset = directive.first_token.loc.start + 4;
     self.lexer.set_tmp_buf(&link_src, BufLoc::Offset(offset));
@@ -307,7 +310,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
 }
 
 lazy_static! {
-  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\s\[](?:[^\[]*[^\s\[])?)\[.*\]$"#).unwrap();
   // ascidoctor impl: /^(\\)?include::([^\s\[](?:[^\[]*[^\s\[])?)\[(.+)?\]$/
 }
 
-- 
2.43.0


From 7cc17213f5fb01ba6517521619ad8f33372778e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 37/99] fix: indent of an include with blank lines, tabs or
 lines left out

---
 .../directives/includes/process_includes.rs   | 57 +++++++++----------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 836a985..02dba6d 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -1,6 +1,7 @@
 use lazy_static::lazy_static;
 use regex::Regex;
 
+use super::normalize_includes::source_lines;
 use crate::internal::*;
 use crate::variants::token::*;
 
@@ -244,8 +245,8 @@ impl<'arena> Parser<'arena> {
   }
 
   fn set_include_indentation(&self, attrs: &AttrList, buf: &mut BumpVec<'arena, u8>) {
-    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<usize>().ok()) {
-      _set_indentation(indent, buf, self.bump);
+    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<u16>().ok()) {
+      _set_indentation(usize::from(indent), buf, self.bump);
     };
   }
 
@@ -275,38 +276,32 @@ impl<'arena> Parser<'arena> {
 }
 
 fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump: &'arena Bump) {
-  let mut trimmed = buf.as_slice();
-  if trimmed.last() == Some(&b'\n') {
-    trimmed = &trimmed[..trimmed.len() - 1];
-  }
-  let Some(min_indent) = trimmed
-    .split(|&c| c == b'\n')
-    .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
-        return acc;
-      }
-      let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      match acc {
-        Some(current) => Some(current.min(line_indent)),
-        None => Some(line_indent),
-      }
-    })
-  else {
+  let Some(min_indent) = source_lines(buf).filter_map(line_indentation).min() else {
     return;
   };
-  if indent != min_indent {
-    let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
-    buf.split(|&c| c == b'\n').for_each(|line| {
-      let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      if line_indent >= min_indent {
-        dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
-        dest.extend(line.iter().skip(line_indent));
-        dest.push(b'\n');
-      }
-    });
-    dest.pop();
-    std::mem::swap(buf, &mut dest);
+  let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
+  for line in buf.split_inclusive(|&c| c == b'\n') {
+    if line_indentation(line.strip_suffix(b"\n").unwrap_or(line)).is_some() {
+      dest.extend(std::iter::repeat_n(b' ', indent));
+      dest.extend_from_slice(&line[min_indent..]);
+    } else {
+      dest.extend_from_slice(line);
+    }
+  }
+  std::mem::swap(buf, &mut dest);
+}
+
+/// blank lines (and the stand-ins for lines left out) have no indentation
+fn line_indentation(line: &[u8]) -> Option<usize> {
+  if line.is_empty() || line == b"\r" || line == b"asciidorkinclude::[false]" {
+    return None;
   }
+  Some(
+    line
+      .iter()
+      .take_while(|&&c| c == b' ' || c == b'\t')
+      .count(),
+  )
 }
 
 lazy_static! {
-- 
2.43.0


From 042b34ee002a7869d52a2c795a34c8c84db46242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 38/99] fix: tag filters of an include with several names, in
 any order or with mismatched end tags

---
 parser/src/tasks/directives/includes/tags.rs | 152 ++++++++++++-------
 1 file changed, 97 insertions(+), 55 deletions(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 73c1537..a1bca05 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -20,25 +20,20 @@ pub enum Spec {
   AllUntaggedIncl(String),       // !*;foo
 }
 
-#[derive(Debug, PartialEq, Eq)]
-enum Strategy {
-  Any,
-  All,
-}
-
 impl Spec {
-  fn satisfied_by(&self, stack: &TagStack) -> bool {
+  /// what the spec says about which tags, in the order it was written
+  fn rules(&self) -> Vec<(&str, bool)> {
     match self {
-      Spec::AllNonTagDirectiveLines => true,
-      Spec::NoLines => false,
-      Spec::AllTaggedRegions => !stack.is_empty(),
-      Spec::AllUntaggedRegions => stack.is_empty(),
-      Spec::Tag(tag) => stack.contains(tag),
-      Spec::AllLinesExcl(tag) => !stack.contains(tag),
-      Spec::TagExclAllNested(tag) => stack.last_is(tag),
-      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.contains(excl),
-      Spec::AllTaggedExcl(tag) => !stack.is_empty() && !stack.contains(tag),
-      Spec::AllUntaggedIncl(tag) => stack.is_empty() || stack.last_is(tag),
+      Spec::AllNonTagDirectiveLines => vec![("**", true)],
+      Spec::NoLines => vec![("**", false)],
+      Spec::AllTaggedRegions => vec![("*", true)],
+      Spec::AllUntaggedRegions => vec![("*", false)],
+      Spec::Tag(tag) => vec![(tag, true)],
+      Spec::AllLinesExcl(tag) => vec![(tag, false)],
+      Spec::TagExclAllNested(tag) => vec![(tag, true), ("*", false)],
+      Spec::TagExclNested(incl, excl) => vec![(incl, true), (excl, false)],
+      Spec::AllTaggedExcl(tag) => vec![("*", true), (tag, false)],
+      Spec::AllUntaggedIncl(tag) => vec![("*", false), (tag, true)],
     }
   }
 }
@@ -47,14 +42,16 @@ impl Spec {
 pub struct TagSpecs(Vec<Spec>);
 
 impl TagSpecs {
-  fn strategy(&self) -> Strategy {
-    if self.0.first() == Some(&Spec::AllNonTagDirectiveLines) {
-      Strategy::All
-    } else if self.0.iter().all(|s| matches!(s, Spec::AllLinesExcl(_))) {
-      Strategy::All
-    } else {
-      Strategy::Any
+  /// the last rule for a tag counts, in the place of the first one
+  fn rules(&self) -> Vec<(&str, bool)> {
+    let mut rules: Vec<(&str, bool)> = Vec::with_capacity(self.0.len());
+    for (tag, select) in self.0.iter().flat_map(Spec::rules) {
+      match rules.iter_mut().find(|rule| rule.0 == tag) {
+        Some(rule) => rule.1 = select,
+        None => rules.push((tag, select)),
+      }
     }
+    rules
   }
 
   fn expected_tags(&self) -> HashSet<String> {
@@ -116,9 +113,46 @@ impl TagSpecs {
       }
     }
   }
+}
 
-  fn specs(&self) -> impl Iterator<Item = &Spec> {
-    self.0.iter()
+/// which lines the rules select, see `PreprocessorReader#preprocess_include_directive` of asciidoctor
+#[derive(Debug)]
+struct TagFilter<'a> {
+  /// lines outside of all regions that count
+  base: bool,
+  /// regions that no rule names, which don't count without a wildcard
+  wildcard: Option<bool>,
+  rules: Vec<(&'a str, bool)>,
+}
+
+impl<'a> TagFilter<'a> {
+  fn new(mut rules: Vec<(&'a str, bool)>) -> Self {
+    let all = rules.iter().position(|rule| rule.0 == "**").map(|idx| rules.remove(idx).1);
+    let starts_with_wildcard = rules.first().is_some_and(|rule| rule.0 == "*");
+    let mut wildcard = rules.iter().position(|rule| rule.0 == "*").map(|idx| rules.remove(idx).1);
+    let base = match (all, wildcard) {
+      (Some(all), _) => all,
+      (None, Some(wildcard)) => starts_with_wildcard && !wildcard,
+      (None, None) => !rules.iter().any(|rule| rule.1),
+    };
+    // `!**;!foo` means all tagged lines except those tagged `foo`
+    if all == Some(false) && wildcard.is_none() && rules.first().is_some_and(|rule| !rule.1) {
+      wildcard = Some(true);
+    }
+    TagFilter { base, wildcard, rules }
+  }
+
+  fn rule(&self, tag: &str) -> Option<bool> {
+    self.rules.iter().find(|rule| rule.0 == tag).map(|rule| rule.1)
+  }
+
+  /// is the region selected that `tag` starts within the regions on the stack, if it counts at all
+  fn enter(&self, tag: &str, stack: &TagStack) -> Option<bool> {
+    match (self.rule(tag), self.wildcard) {
+      (Some(select), _) => Some(select),
+      (None, Some(_)) if stack.last().is_some_and(|region| !region.select) => Some(false),
+      (None, wildcard) => wildcard,
+    }
   }
 }
 
@@ -178,6 +212,9 @@ impl<'arena> Parser<'arena> {
       .filter(|(tags, _)| !tags.is_empty())
     {
       let selection = parse_selection(tags);
+      if selection.0.is_empty() {
+        return Ok(());
+      }
       self._select_tagged_lines(selection, src, src_path, loc)
     } else {
       Ok(())
@@ -194,21 +231,28 @@ impl<'arena> Parser<'arena> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
     let lines = source_lines(src);
-    let strategy = selection.strategy();
+    let filter = TagFilter::new(selection.rules());
     let mut expected_tags = selection.expected_tags();
-    let mut pushed_non_empty_line = false;
+    let mut selected_any_line = false;
     for (idx, line) in lines.enumerate() {
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
-          expected_tags.remove(&tag);
-          tag_stack.push(tag, idx);
+          if let Some(select) = filter.enter(&tag, &tag_stack) {
+            expected_tags.remove(&tag);
+            tag_stack.push(tag, idx, select);
+          }
         }
         Some(TagDirective::End(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
-          } else if selection.expected_tags().contains(&tag) {
+            continue;
+          }
+          if filter.rule(&tag).is_some() {
+            tag_stack.remove(&tag);
+          }
+          if selection.expected_tags().contains(&tag) {
             let line = nth_line(src, idx).unwrap().to_string();
             let underline_start = line.find(&tag).unwrap_or(0) as u32;
             self.err(Diagnostic {
@@ -216,7 +260,7 @@ impl<'arena> Parser<'arena> {
               line,
               message: tag_stack.last().map_or_else(
                 || format!("Unexpected end tag `{tag}`"),
-                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.0, tag),
+                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.tag, tag),
               ),
               underline_start,
               underline_width: tag.len() as u32,
@@ -225,16 +269,8 @@ impl<'arena> Parser<'arena> {
           }
         }
         None => {
-          if (strategy == Strategy::All
-            && selection.specs().all(|spec| spec.satisfied_by(&tag_stack)))
-            || (strategy == Strategy::Any
-              && selection.specs().any(|spec| spec.satisfied_by(&tag_stack)))
-          {
-            if !pushed_non_empty_line
-              && (!line.is_empty() || line.iter().any(|&b| !b.is_ascii_whitespace()))
-            {
-              pushed_non_empty_line = true;
-            }
+          if tag_stack.last().map_or(filter.base, |region| region.select) {
+            selected_any_line = true;
             dest.extend(line);
             dest.push(b'\n');
           }
@@ -242,7 +278,7 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    if let Some((tag, line_idx)) = tag_stack.last()
+    if let Some(Region { tag, line_idx, .. }) = tag_stack.last()
       && selection.expected_tags().contains(tag)
     {
       let line = nth_line(src, *line_idx).unwrap().to_string();
@@ -270,7 +306,7 @@ impl<'arena> Parser<'arena> {
       )?;
     }
 
-    if !pushed_non_empty_line {
+    if !selected_any_line {
       dest.clear();
     }
 
@@ -288,36 +324,42 @@ fn nth_line(src: &[u8], n: usize) -> Option<&str> {
 }
 
 #[derive(Debug)]
-struct TagStack(Vec<(String, usize)>);
+struct Region {
+  tag: String,
+  line_idx: usize,
+  select: bool,
+}
+
+#[derive(Debug)]
+struct TagStack(Vec<Region>);
 
 impl TagStack {
   fn new() -> Self {
     TagStack(Vec::with_capacity(3))
   }
 
-  fn push(&mut self, tag: String, line_idx: usize) {
-    self.0.push((tag, line_idx));
+  fn push(&mut self, tag: String, line_idx: usize, select: bool) {
+    self.0.push(Region { tag, line_idx, select });
   }
 
   fn pop(&mut self) {
     self.0.pop();
   }
 
-  const fn is_empty(&self) -> bool {
-    self.0.is_empty()
+  /// end the innermost region of the tag, although others in it were not ended
+  fn remove(&mut self, tag: &str) {
+    if let Some(idx) = self.0.iter().rposition(|region| region.tag == tag) {
+      self.0.remove(idx);
+    }
   }
 
   fn last_is(&self, tag: &str) -> bool {
-    self.0.last().map(|(t, _)| t == tag).unwrap_or(false)
+    self.0.last().is_some_and(|region| region.tag == tag)
   }
 
-  fn last(&self) -> Option<&(String, usize)> {
+  fn last(&self) -> Option<&Region> {
     self.0.last()
   }
-
-  fn contains(&self, tag: &str) -> bool {
-    self.0.iter().any(|(t, _)| t == tag)
-  }
 }
 
 #[derive(Debug, PartialEq, Eq)]
-- 
2.43.0


From 422cb3e3e4d8b5a0aa94755b8e974e4061bee50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 39/99] fix: tags and lines of an include aren't subject to
 quotes substitution

---
 parser/src/tasks/parse_attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..05cc068 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -292,7 +292,7 @@ impl<'arena> Parser<'arena> {
       AttrIr::Named(name, tokens) => {
         let restore = self.ctx.subs;
         // TODO: is this correct?
-        self.ctx.subs = if matches!(name.src.as_str(), "subs" | "cols") {
+        self.ctx.subs = if matches!(name.src.as_str(), "subs" | "cols" | "lines" | "tag" | "tags") {
           Substitutions::none()
         } else {
           Substitutions::attr_value()
-- 
2.43.0


From d7d153666f2867d8c59fb03618c8180a8630ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 40/99] fix: an include that contributes no lines adds no blank
 one

---
 .../tasks/directives/includes/process_includes.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 02dba6d..881bf4a 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -118,12 +118,15 @@ impl<'arena> Parser<'arena> {
           .attrs
           .named("depth")
           .and_then(|s| s.parse::<u16>().ok());
-        self.lexer.push_source(
-          SourceFile::Path(target_abspath),
-          leveloffset,
-          include_depth,
-          buffer,
-        );
+        // no lines are left to read, and the lexer would supply a blank one
+        if !buffer.is_empty() {
+          self.lexer.push_source(
+            SourceFile::Path(target_abspath),
+            leveloffset,
+            include_depth,
+            buffer,
+          );
+        }
         self
           .document
           .meta
-- 
2.43.0


From 83cf2e0d50e838d2eda42e73b100ada6a367d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 41/99] fix: missing-tag warnings for the tags a list ends up
 selecting, negated tags after !**

---
 parser/src/tasks/directives/includes/tags.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index a1bca05..4134b15 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -56,15 +56,10 @@ impl TagSpecs {
 
   fn expected_tags(&self) -> HashSet<String> {
     self
-      .0
-      .iter()
-      .filter_map(|spec| match spec {
-        Spec::Tag(tag) => Some(tag.clone()),
-        Spec::TagExclAllNested(tag) => Some(tag.clone()),
-        Spec::TagExclNested(tag, _) => Some(tag.clone()),
-        Spec::AllUntaggedIncl(tag) => Some(tag.clone()),
-        _ => None,
-      })
+      .rules()
+      .into_iter()
+      .filter(|&(tag, select)| select && tag != "*" && tag != "**")
+      .map(|(tag, _)| tag.to_string())
       .collect()
   }
 
@@ -99,7 +94,7 @@ impl TagSpecs {
       }
       // `!**;!foo` means all tagged lines except those tagged `foo`
       // according to asciidoctor tests
-      (Some(Spec::NoLines), Spec::AllLinesExcl(tag)) => {
+      (Some(Spec::NoLines), Spec::AllLinesExcl(tag)) if self.0.is_empty() => {
         self.0.push(Spec::AllTaggedExcl(tag));
       }
       (Some(Spec::AllUntaggedIncl(prev)), Spec::AllLinesExcl(tag)) if prev == tag => {
-- 
2.43.0


From 501dd219a6e8fea1d0dcf8e48b94723898dc4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 42/99] fix: locate an asciidoc table cell in the source its
 text comes from

---
 parser/src/lexer/root_lexer.rs        |  5 ++---
 parser/src/parser.rs                  |  7 ++++---
 parser/src/tasks/table/parse_table.rs | 23 ++++++++++++++++++++---
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 1fa3923..b9d49ad 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -308,9 +308,8 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.idx);
-    let before_offset = self.line_number(offset_loc) - 1;
+  pub fn reline_diagnostics(&self, loc: SourceLocation, diagnostics: &mut [Diagnostic]) {
+    let before_offset = self.line_number(loc) - 1;
     diagnostics
       .iter_mut()
       .for_each(|diag| diag.line_num += before_offset);
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 73af71d..6f2ea8c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -76,11 +76,12 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, loc: SourceLocation) -> Parser<'arena> {
+    let source_file = self.lexer.source_file_at(loc.include_depth).clone();
+    let mut cell_parser = Parser::new(src, source_file, self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
-    cell_parser.lexer.adjust_offset(offset);
+    cell_parser.lexer.adjust_offset(loc.start);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.ctx.max_include_depth = self.remaining_include_depth();
     cell_parser.document.meta = self.document.meta.clone_for_cell();
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..c8858f3 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -215,7 +215,8 @@ impl<'arena> Parser<'arena> {
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      let src_loc = self.cell_src_loc(&cell_tokens);
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), src_loc);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -227,7 +228,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self.lexer.reline_diagnostics(src_loc, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -241,7 +242,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics(src_loc, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
@@ -351,6 +352,22 @@ impl<'arena> Parser<'arena> {
     paras
   }
 
+  /// where the cell's text starts in the source holding it, which is not
+  /// necessarily the lexer's current one, if the text comes from an include
+  fn cell_src_loc(&self, cell_tokens: &Line<'arena>) -> SourceLocation {
+    let mut leading = 0;
+    for token in cell_tokens.iter() {
+      if !matches!(token.kind, Whitespace | Newline) {
+        return SourceLocation {
+          start: token.loc.start.saturating_sub(leading),
+          ..token.loc
+        };
+      }
+      leading += token.lexeme.len() as u32;
+    }
+    self.lexer.loc()
+  }
+
   fn table_content(
     &mut self,
     mut lines: ContiguousLines<'arena>,
-- 
2.43.0


From ff8ffb992879aaaf74493d815fe3c37194870dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 43/99] fix: a blank line after left-out lines isn't swallowed

---
 parser/src/lexer/root_lexer.rs     |  7 +++++++
 parser/src/parser.rs               | 30 +++++++++---------------------
 parser/src/tasks/directives/mod.rs |  2 +-
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index b9d49ad..2f0401a 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -208,6 +208,13 @@ impl<'arena> RootLexer<'arena> {
     }
   }
 
+  pub fn unread_newline(&mut self) {
+    let source = &mut self.sources[self.idx as usize];
+    if self.tmp_buf.is_none() && source.pos > 0 && source.src[source.pos as usize - 1] == b'\n' {
+      source.pos -= 1;
+    }
+  }
+
   pub fn peek(&self) -> Option<u8> {
     // case: we're in the middle of a temporary buffer
     if let Some((tmp_buf, _)) = &self.tmp_buf {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 6f2ea8c..c7cb2b2 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -104,10 +104,6 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
-  }
-
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
     assert!(self.peeked_lines.is_none());
     if self.lexer.is_eof() {
       return Ok(None);
@@ -146,22 +142,17 @@ impl<'arena> Parser<'arena> {
     }
     self.lexer.skip_newline();
     if drop_line {
-      return self._read_line(false);
+      return self.read_line();
     }
     if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
       match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+        DirectiveAction::Passthrough => Ok(Some(line)),
+        DirectiveAction::SubstituteLine(line) => Ok(Some(line)),
+        DirectiveAction::ReadNextLine => self.read_line(),
+        DirectiveAction::SkipLinesUntilEndIf => self.skip_lines_until_endif(&line),
       }
     } else {
-      Ok(Some((line, ignored_last)))
+      Ok(Some(line))
     }
   }
 
@@ -178,19 +169,17 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
+        } else {
           // this case can happen if our first non-empty line was an include directive
           // this case happens only when we DROP a line
-          if self.ctx.verbatim_delimiter.is_some() {
-            lines.push(line);
-          }
+          self.lexer.unread_newline(); // e.g. a listing or a table holds its blank lines
           break;
         }
       }
@@ -427,7 +416,6 @@ impl<'arena> HasArena<'arena> for Parser<'arena> {
 pub enum DirectiveAction<'arena> {
   Passthrough,
   ReadNextLine,
-  IgnoreNotIncluded,
   SkipLinesUntilEndIf,
   SubstituteLine(Line<'arena>),
 }
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 22e44fd..e6bc3df 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -15,7 +15,7 @@ impl<'arena> Parser<'arena> {
       "ifndef::" => self.try_process_ifdef_directive(false, line),
       "endif::" => self.try_process_endif_directive(line),
       "ifeval::" => self.try_process_ifeval_directive(line),
-      "asciidorkinclude::" => Ok(DirectiveAction::IgnoreNotIncluded),
+      "asciidorkinclude::" => Ok(DirectiveAction::ReadNextLine),
       _ => unreachable!("Parser::try_process_directive"),
     }
   }
-- 
2.43.0


From e663b47efca1e2c2a3abe31d6f8b7159d906107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 44/99] fix: special characters in unused attribute lists,
 escapes and index terms stay text

---
 parser/src/tasks/parse_inlines/index_term.rs  | 19 +++++++-
 .../src/tasks/parse_inlines/inline_utils.rs   | 26 +++++++++++
 parser/src/tasks/parse_inlines/mod.rs         | 43 +++++++++++++++----
 3 files changed, 78 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..f8a92f1 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -16,7 +16,24 @@ impl<'arena> Parser<'arena> {
     let Some(term) = attr_list.positional.get_mut(0).and_then(Option::take) else {
       self.err_at("invalid index term macro", attr_list.loc)?;
       let invalid_macro = self.lexer.str_from_loc(loc);
-      return Ok((Inline::Text(self.string(invalid_macro)), loc));
+      if !invalid_macro.contains(['&', '<', '>']) {
+        return Ok((Inline::Text(self.string(invalid_macro)), loc));
+      }
+      let mut nodes = InlineNodes::new(self.bump);
+      for piece in invalid_macro.split_inclusive(['&', '<', '>']) {
+        let text = piece.trim_end_matches(['&', '<', '>']);
+        if !text.is_empty() {
+          nodes.push(InlineNode::new(Inline::Text(self.string(text)), loc));
+        }
+        let special = match &piece[text.len()..] {
+          "&" => SpecialCharKind::Ampersand,
+          "<" => SpecialCharKind::LessThan,
+          ">" => SpecialCharKind::GreaterThan,
+          _ => continue,
+        };
+        nodes.push(InlineNode::new(Inline::SpecialChar(special), loc));
+      }
+      return Ok((Inline::InlinePassthru(nodes), loc));
     };
 
     let term_type = if visible {
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..07b5134 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -174,6 +174,32 @@ impl<'arena> Accum<'arena> {
     }
   }
 
+  /// push a callout number token as literal text, with its special chars escaped
+  pub fn push_unused_callout_number(&mut self, token: &Token) {
+    debug_assert!(token.kind == TokenKind::CalloutNumber);
+    let start = token.loc.clamp_start().incr_end();
+    let end = token.loc.clamp_end().decr_start();
+    self.push_node(Inline::SpecialChar(SpecialCharKind::LessThan), start);
+    self.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
+    self.push_node(Inline::SpecialChar(SpecialCharKind::GreaterThan), end);
+  }
+
+  /// push source text that turned out not to be markup, with its special chars escaped
+  pub fn push_literal(&mut self, literal: &str) {
+    for piece in literal.split_inclusive(['&', '<', '>']) {
+      let text = piece.trim_end_matches(['&', '<', '>']);
+      self.text.push_str(text);
+      let special = match &piece[text.len()..] {
+        "&" => SpecialCharKind::Ampersand,
+        "<" => SpecialCharKind::LessThan,
+        ">" => SpecialCharKind::GreaterThan,
+        _ => continue,
+      };
+      let loc = self.text.loc.clamp_end().incr_end();
+      self.push_node(Inline::SpecialChar(special), loc);
+    }
+  }
+
   #[inline(always)]
   pub fn push_text_token(&mut self, token: &Token) {
     if self.text.loc.end == token.loc.start {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..85d4099 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -236,8 +236,10 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if line.current_is(UriScheme) {
+                    let next_token = line.consume_current().unwrap();
+                    acc.push_text_token(&next_token);
+                  }
                 } else {
                   let target = self
                     .macro_target_from_passthru(&mut line)
@@ -379,6 +381,12 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
+          // an attr entry amid a paragraph or verbatim block is just text
+          AttrDef if subs.special_chars() => {
+            acc.push_literal(&token.lexeme);
+            acc.text.loc = token.loc.clamp_end();
+          }
+
           AttrPassDbl => {
             let pass_subs = line.consume_to_string_until(OpenBracket, self.bump);
             line.discard_assert(OpenBracket);
@@ -433,11 +441,7 @@ impl<'arena> Parser<'arena> {
           }
 
           CalloutNumber if subs.special_chars() => {
-            let start = token.loc.clamp_start().incr_end();
-            let end = token.loc.clamp_end().decr_start();
-            acc.push_node(SpecialChar(SpecialCharKind::LessThan), start);
-            acc.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
-            acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
+            acc.push_unused_callout_number(&token);
           }
 
           LessThan if line.continues_xref_shorthand() => {
@@ -764,7 +768,12 @@ impl<'arena> Parser<'arena> {
 
           // already encoded entities, eg: &#8212;
           Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+            // keep the reference whole, its hash can't end a span
             acc.push_text_token(&token);
+            for _ in 0..3 {
+              let token = line.consume_current().unwrap();
+              acc.push_text_token(&token);
+            }
           }
 
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
@@ -838,7 +847,18 @@ impl<'arena> Parser<'arena> {
                 {
                   // pushing the next token as text prevents recognizing the pattern
                   let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  match next_token.kind {
+                    LessThan if subs.special_chars() && !line.current_is(Dashes) => {
+                      acc.push_node(SpecialChar(SpecialCharKind::LessThan), next_token.loc)
+                    }
+                    GreaterThan if subs.special_chars() => {
+                      acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), next_token.loc)
+                    }
+                    CalloutNumber if subs.special_chars() => {
+                      acc.push_unused_callout_number(&next_token)
+                    }
+                    _ => acc.push_text_token(&next_token),
+                  }
                 }
               }
             }
@@ -888,7 +908,12 @@ impl<'arena> Parser<'arena> {
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_vals(text));
+      let text = self.replace_attr_vals(text);
+      if self.ctx.subs.special_chars() {
+        acc.push_literal(&text);
+      } else {
+        acc.text.push_str(&text);
+      }
     }
   }
 
-- 
2.43.0


From d8211335fec09fc218ab4ae8931a229997a87e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 45/99] fix: the text of an unresolved include directive is
 escaped

---
 parser/src/tasks/directives/includes/process_includes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 881bf4a..32a2bfa 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -140,11 +140,13 @@ impl<'arena> Parser<'arena> {
       }
       Err(err @ ResolveError::NotFound | err @ ResolveError::Io(..)) => {
         self.target_err(format!("Include error: {err}"), &directive)?;
+        // NB: `+++` passes its content through as is, so special chars must be escaped here
+        let escape = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
         let mut msg = self.string("+++Unresolved directive in ");
-        msg.push_str(self.lexer.source_file().file_name());
+        msg.push_str(&escape(self.lexer.source_file().file_name()));
         msg.push_str(" - ");
         let offset = directive.first_token.loc.start + msg.len() as u32;
-        msg.push_str(directive.line_src.as_str());
+        msg.push_str(&escape(&directive.line_src));
         msg.push_str("+++\n");
         self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
         Ok(DirectiveAction::ReadNextLine)
-- 
2.43.0


From 0660ed232b3efc390d29d7936b93c091e38ed50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 46/99] fix: a callout list shows its title and only moves
 inside a verbatim block it follows

---
 backend-html5s/src/html5s.rs            | 18 ++++++++++++++++--
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..7960e7c 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -6,6 +6,8 @@ use ast::AdjacentNewline;
 
 #[derive(Debug, Default)]
 pub struct Html5s {
+  verbatim_end: Option<(usize, &'static str)>,
+  callout_list_close: Vec<&'static str>,
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
@@ -350,6 +352,7 @@ impl Backend for Html5s {
     self.push_str("</pre>");
     let close = if block.has_title() { "</figure>" } else { "</div>" };
     self.push_str(close);
+    self.verbatim_end = Some((self.html.len(), close));
   }
 
   fn enter_literal_block(&mut self, block: &Block) {
@@ -364,6 +367,7 @@ impl Backend for Html5s {
     self.push_str("</pre>");
     let end = if block.has_title() { "</section>" } else { "</div>" };
     self.push_str(end);
+    self.verbatim_end = Some((self.html.len(), end));
     self.newlines = self.default_newlines;
   }
 
@@ -515,12 +519,22 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // a list directly after its verbatim block moves inside it
+    let close = match self.verbatim_end {
+      Some((end, tag)) if end == self.html.len() && self.html.ends_with(tag) => {
+        self.html.truncate(end - tag.len());
+        tag
+      }
+      _ => "",
+    };
+    self.callout_list_close.push(close);
+    self.render_buffered_block_title(block, true);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    let close = self.callout_list_close.pop().unwrap_or_default();
+    self.push(["</ol>", close]);
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..6816796 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -552,6 +552,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
+    self.render_buffered_block_title(block);
     self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
   }
 
-- 
2.43.0


From bf7e42fb67a2fe403554dfc0e891198ed862fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 47/99] fix: document text in attribute values and metadata is
 escaped

---
 backend-html5s/src/html5s.rs            | 167 ++++++++++++---------
 backend/src/html/backend.rs             | 185 ++++++++++++++----------
 backend/src/html/htmlbuf.rs             |  53 ++++---
 backend/src/html/open_tag.rs            |   8 +-
 backend/src/html/video.rs               |  64 ++++----
 dr-html-backend/src/asciidoctor_html.rs | 135 ++++++++++-------
 6 files changed, 367 insertions(+), 245 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7960e7c..6315354 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -61,7 +61,9 @@ impl Backend for Html5s {
       self.open_body(document);
       if let Some(max_width) = document.meta.string("max-width") {
         self.html.pop();
-        self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+        self.push_str(r#" style="max-width: "#);
+        self.push_attr_value(&max_width);
+        self.push_str(r#";">"#);
       }
     }
   }
@@ -114,7 +116,9 @@ impl Backend for Html5s {
     self.push_str("<footer><div id=\"footer-text\">");
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "");
-      self.push([&label, " ", &revnumber]);
+      self.push_specialchar_escaped(&label);
+      self.push_ch(' ');
+      self.push_specialchar_escaped(&revnumber);
     }
     // TODO: last-update-label
     self.push_str("</div>");
@@ -150,15 +154,19 @@ impl Backend for Html5s {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<nav id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push_str(r#"<nav id=""#);
+    self.push_attr_value(id);
+    self.push_str(r#"" class=""#);
+    self.push_attr_value(&self.doc_meta.string_or("toc-class", "toc"));
     self.push_str(r#"" role="doc-toc"#);
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
     let level = self.section_level_stack.last().copied().unwrap_or(0) + 2;
-    self.push([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
-    self.push_str(&toc.title);
+    self.push([r#""><h"#, &num_str!(level), r#" id=""#]);
+    self.push_attr_value(id);
+    self.push_str(r#"-title">"#);
+    self.push_specialchar_escaped(&toc.title);
     self.push([r#"</h"#, &num_str!(level), ">"]);
   }
 
@@ -201,9 +209,11 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push_str(r#" id=""#);
+      self.push_attr_value(id);
+      self.push_ch('"');
     }
-    self.push_str("\">");
+    self.push_ch('>');
     self.push_part_prefix();
   }
 
@@ -312,37 +322,34 @@ impl Backend for Html5s {
     let el = if block.has_title() { "figure" } else { "div" };
     self.open_element(el, &["listing-block"], &block.meta.attrs);
     self.render_buffered_block_title(block, false);
-    let mut html = String::new();
-    self.swapbuf(&mut html);
-    html.push_str("<pre");
-    let doc_lang = self.doc_meta.str("source-language");
+    self.push_str("<pre");
+    let doc_lang = self.doc_meta.string("source-language");
     if block.meta.attrs.is_source() || doc_lang.is_some() {
-      html.push_str(" class=\"highlight");
+      self.push_str(" class=\"highlight");
       if block.meta.attrs.has_option("nowrap") {
-        html.push_str(" nowrap");
+        self.push_str(" nowrap");
       }
       if block.meta.attrs.has_option("numbered")
         || block.meta.attrs.has_option("linenums")
         || block.meta.attrs.str_positional_at(2) == Some("linenums")
       {
-        html.push_str(" linenums");
+        self.push_str(" linenums");
       }
-      if let Some(highlighter) = self.doc_meta.str("source-highlighter") {
-        html.push(' ');
-        html.push_str(highlighter);
+      if let Some(highlighter) = self.doc_meta.string("source-highlighter") {
+        self.push_ch(' ');
+        self.push_attr_value(&highlighter);
       }
-      html.push_str("\"><code");
-      if let Some(lang) = block.meta.attrs.source_language().or(doc_lang) {
-        html.push_str(" class=\"language-");
-        html.push_str(lang);
-        html.push_str("\" data-lang=\"");
-        html.push_str(lang);
-        html.push('"');
+      self.push_str("\"><code");
+      if let Some(lang) = block.meta.attrs.source_language().or(doc_lang.as_deref()) {
+        self.push_str(" class=\"language-");
+        self.push_attr_value(lang);
+        self.push_str("\" data-lang=\"");
+        self.push_attr_value(lang);
+        self.push_ch('"');
       }
       self.state.ephemeral.insert(IsSourceBlock);
     }
-    html.push('>');
-    self.swapbuf(&mut html);
+    self.push_ch('>');
   }
 
   fn exit_listing_block(&mut self, block: &Block) {
@@ -1008,18 +1015,18 @@ impl Backend for Html5s {
 
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
+      self.push_str("<a id=\"");
+      self.push_attr_value(id);
+      self.push_str("\" aria-hidden=\"true\"></a>");
     }
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push([
-      "<a id=\"",
-      id,
-      "\" aria-hidden=\"true\"></a>[",
-      reftext.unwrap_or(id),
-      "]",
-    ]);
+    self.push_str("<a id=\"");
+    self.push_attr_value(id);
+    self.push_str("\" aria-hidden=\"true\"></a>[");
+    self.push_specialchar_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   fn visit_callout(&mut self, callout: Callout) {
@@ -1040,7 +1047,9 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push_str(r#"<kbd class="button"><samp>"#);
+    self.push_specialchar_escaped(text);
+    self.push_str("</samp></kbd>");
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1058,44 +1067,48 @@ impl Backend for Html5s {
         self.push_str(r#"<b class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_attr_value(role);
         });
         if let Some(title) = attrs.named("title") {
-          self.push([r#"" title=""#, title]);
+          self.push_str(r#"" title=""#);
+          self.push_str_attr_escaped(title);
         }
         self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
         self.push_str(r#" class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_attr_value(role);
         });
         self.push_str(r#"">"#);
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_attr_value(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_str(r#" fa-"#);
+          self.push_attr_value(size);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_str(r#" fa-flip-"#);
+          self.push_attr_value(flip);
         } else if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_str(r#" fa-rotate-"#);
+          self.push_attr_value(rotate);
         }
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_attr_value(role);
         });
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1147,13 +1160,15 @@ impl Backend for Html5s {
     }
     if !style.is_empty() {
       self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      self.push_str(" style=\"");
+      self.push_attr_value(&style);
+      self.push_str("\">");
     }
     if !attrs.roles.is_empty() {
       self.html.pop();
       self.push_str(" class=\"");
       for role in attrs.roles.iter() {
-        self.push_str(&role.src);
+        self.push_attr_value(&role.src);
         self.push_ch(' ');
       }
       self.html.pop();
@@ -1192,7 +1207,9 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push_str("<kbd class=\"key\">");
+      self.push_specialchar_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
@@ -1255,11 +1272,13 @@ impl Backend for Html5s {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(items.next().unwrap());
     self.push_str("</samp></kbd>");
     for item in items {
       self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push_str("menu\"><samp>");
+      self.push_specialchar_escaped(item);
+      self.push_str("</samp></kbd>");
     }
     self.push_str("</kbd>");
   }
@@ -1362,14 +1381,18 @@ impl Backend for Html5s {
         false
       };
       let href = if *href == "self" { &img_target.src } else { *href };
-      self.push([r#"" href=""#, href, r#"""#]);
+      self.push_str(r#"" href=""#);
+      self.push_attr_value(href);
+      self.push_ch('"');
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
           "html5s-image-self-link-label",
           "Open the image in full size",
         );
-        self.push([r#" title=""#, &label, r#"" aria-label=""#, &label, r#"">"#]);
+        self.push_html_attr("title", &label);
+        self.push_html_attr("aria-label", &label);
+        self.push_ch('>');
       } else {
         self.push_ch('>');
       }
@@ -1511,13 +1534,17 @@ impl Html5s {
       _ => ("", ""),
     };
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push([open, custom_caption, title, close]);
+      self.push_str(open);
+      self.push_specialchar_escaped(custom_caption);
+      self.push([title, close]);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push([open, &caption, " "]);
+      self.push_str(open);
+      self.push_specialchar_escaped(&caption);
+      self.push_ch(' ');
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
         BlockContext::Image => incr(&mut self.fig_caption_num),
@@ -1560,14 +1587,18 @@ impl Html5s {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str("\">");
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
     if let Some(email) = &author.email {
       self.push_str(r#"<span class="email" id="email"#);
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push_str("\"><a href=\"mailto:");
+      self.push_attr_value(email);
+      self.push_str("\">");
+      self.push_specialchar_escaped(email);
+      self.push_str("</a></span>");
       if index == 0 {
         self.push_str("<br>");
       }
@@ -1586,7 +1617,10 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push_str(r#"<span id="revnumber">"#);
+      self.push_specialchar_escaped(&label);
+      self.push_ch(' ');
+      self.push_specialchar_escaped(&revnumber);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
@@ -1594,16 +1628,17 @@ impl Html5s {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([
-        r#"<time id="revdate" datetime=""#,
-        &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
-        r#"">"#,
-        &revdate,
-        "</time>",
-      ]);
+      let datetime = backend::time::format_date_str(&revdate, "%Y-%m-%d");
+      self.push_str(r#"<time id="revdate" datetime=""#);
+      self.push_attr_value(datetime.as_deref().unwrap_or(&revdate));
+      self.push_str(r#"">"#);
+      self.push_specialchar_escaped(&revdate);
+      self.push_str("</time>");
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_str(r#"<br><span id="revremark">"#);
+      self.push_specialchar_escaped(&revremark);
+      self.push_str("</span>");
     }
     self.push_str("</div>");
   }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..5b2f36b 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -41,37 +41,49 @@ pub trait HtmlBackend: HtmlBuf {
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
     self.push_str(r#"<!DOCTYPE html><html"#);
     if !meta.is_true("nolang") {
-      self.push([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
+      self.push_str(r#" lang=""#);
+      self.push_attr_value(meta.str_or("lang", "en"));
+      self.push_ch('"');
     }
     self.push_str("><head>");
   }
 
   fn meta_tags(&mut self, meta: &DocumentMeta) {
     let encoding = meta.str_or("encoding", "UTF-8");
-    self.push([r#"<meta charset=""#, encoding, r#"">"#]);
+    self.push_str(r#"<meta charset=""#);
+    self.push_attr_value(encoding);
+    self.push_str(r#"">"#);
     self.push_str(r#"<meta http-equiv="X-UA-Compatible" content="IE=edge">"#);
     self.push_str(r#"<meta name="viewport" content="width=device-width, initial-scale=1.0">"#);
     if !meta.is_true("reproducible") {
       self.push_str(r#"<meta name="generator" content="Asciidork">"#);
     }
     if let Some(appname) = meta.str("app-name") {
-      self.push([r#"<meta name="application-name" content=""#, appname, "\">"]);
+      self.push_meta_tag("application-name", appname);
     }
     if let Some(desc) = meta.str("description") {
-      self.push([r#"<meta name="description" content=""#, desc, "\">"]);
+      self.push_meta_tag("description", desc);
     }
     if let Some(keywords) = meta.str("keywords") {
-      self.push([r#"<meta name="keywords" content=""#, keywords, "\">"]);
+      self.push_meta_tag("keywords", keywords);
     }
     if let Some(copyright) = meta.str("copyright") {
-      self.push([r#"<meta name="copyright" content=""#, copyright, "\">"]);
+      self.push_meta_tag("copyright", copyright);
     }
   }
 
+  fn push_meta_tag(&mut self, name: &str, content: &str) {
+    self.push([r#"<meta name=""#, name, r#"" content=""#]);
+    self.push_attr_value(content);
+    self.push_str("\">");
+  }
+
   fn open_body(&mut self, document: &Document) {
     self.push_str("<body");
     if let Some(custom_id) = document.meta.str("css-signature") {
-      self.push([r#" id=""#, custom_id, "\""]);
+      self.push_str(r#" id=""#);
+      self.push_attr_value(custom_id);
+      self.push_ch('"');
     }
     self.push([r#" class=""#, document.meta.get_doctype().to_str()]);
     match document.toc.as_ref().map(|toc| &toc.position) {
@@ -120,11 +132,10 @@ pub trait HtmlBackend: HtmlBuf {
     let state = self.state_mut();
     state.xref_depth += 1;
     if state.xref_depth == 1 {
-      self.push([
-        "<a href=\"",
-        &utils::xref::href(target, self.doc_meta(), kind, true),
-        "\">",
-      ]);
+      let href = utils::xref::href(target, self.doc_meta(), kind, true);
+      self.push_str("<a href=\"");
+      self.push_attr_value(&href);
+      self.push_str("\">");
     }
   }
 
@@ -199,17 +210,12 @@ pub trait HtmlBackend: HtmlBuf {
     if !regx::URI_SNIFF.is_match(target)
       && let Some(imagesdir) = self.doc_meta().string("imagesdir")
     {
-      self.push([&imagesdir, "/"]);
-    }
-    self.push_str(target);
-    let start = attrs.named("start");
-    let end = attrs.named("end");
-    match (start, end) {
-      (None, Some(end)) => self.push(["#t=,", end, "\""]),
-      (Some(start), None) => self.push(["#t=", start, "\""]),
-      (Some(start), Some(end)) => self.push(["#t=", start, ",", end, "\""]),
-      (None, None) => self.push_ch('"'),
+      self.push_attr_value(&imagesdir);
+      self.push_ch('/');
     }
+    self.push_attr_value(target);
+    self.push_media_fragment(attrs);
+    self.push_ch('"');
     if attrs.has_option("autoplay") {
       self.push_str(" autoplay");
     }
@@ -222,48 +228,58 @@ pub trait HtmlBackend: HtmlBuf {
     self.push_str(">Your browser does not support the audio tag.</audio>");
   }
 
+  fn push_media_fragment(&mut self, attrs: &AttrList) {
+    let start = attrs.named("start");
+    let end = attrs.named("end");
+    if start.is_some() || end.is_some() {
+      self.push_str("#t=");
+      self.push_attr_value(start.unwrap_or(""));
+    }
+    if let Some(end) = end {
+      self.push_ch(',');
+      self.push_attr_value(end);
+    }
+  }
+
   fn push_icon_uri(&mut self, name: &str, prefix: Option<&str>) {
     self.push_icon_img_path();
-    self.push([prefix.unwrap_or(""), name]);
+    self.push_str(prefix.unwrap_or(""));
+    self.push_attr_value(name);
     self.push_icon_inferred_img_ext();
   }
 
   fn push_icon_img_path(&mut self) {
-    let mut s = String::new();
-    self.swapbuf(&mut s);
-    if let Some(iconsdir) = self.doc_meta().str("iconsdir")
+    let icons_path = if let Some(iconsdir) = self.doc_meta().str("iconsdir")
       && !iconsdir.is_empty()
     {
-      s.push_str(iconsdir);
+      iconsdir.to_string()
     } else if let Some(imagesdir) = self.doc_meta().str("imagesdir")
       && !imagesdir.is_empty()
     {
-      s.push_str(imagesdir);
+      imagesdir.to_string()
     } else {
-      s.push_str("./images/icons")
-    }
-    s.push('/');
-    self.swapbuf(&mut s);
+      "./images/icons".to_string()
+    };
+    self.push_attr_value(&icons_path);
+    self.push_ch('/');
   }
 
   fn push_icon_inferred_img_ext(&mut self) {
-    let mut s = String::new();
-    self.swapbuf(&mut s);
-    s.push('.');
-    if let Some(icontype) = self.doc_meta().str("icontype")
+    let ext = if let Some(icontype) = self.doc_meta().str("icontype")
       && !icontype.is_empty()
     {
-      s.push_str(icontype);
+      icontype.to_string()
     } else if let Some(icons) = self.doc_meta().str("icons")
       && icons != "font"
       && icons != "image"
       && !icons.is_empty()
     {
-      s.push_str(icons);
+      icons.to_string()
     } else {
-      s.push_str("png")
-    }
-    self.swapbuf(&mut s);
+      "png".to_string()
+    };
+    self.push_ch('.');
+    self.push_attr_value(&ext);
   }
 
   fn render_image(&mut self, target: &str, attrs: &AttrList, img_kind: &ImageKind, is_block: bool) {
@@ -286,10 +302,10 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
         if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_str(alt);
+          self.push_specialchar_escaped(alt);
         } else {
           let stem = asciidork_core::file::stem(target);
-          self.push_str(&stem.replace(['_', '-'], " "));
+          self.push_specialchar_escaped(&stem.replace(['_', '-'], " "));
         }
         self.push_str(r#"</span>"#);
       }
@@ -310,7 +326,9 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_named_or_pos_attr("alt", 0, attrs);
       self.push_ch('>');
     } else if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-      self.push([r#"<span class="alt">"#, alt, "</span>"]);
+      self.push_str(r#"<span class="alt">"#);
+      self.push_specialchar_escaped(alt);
+      self.push_str("</span>");
     }
     self.push_str("</object>");
   }
@@ -336,12 +354,14 @@ pub trait HtmlBackend: HtmlBuf {
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
-      self.push_str(&doctitle);
+      self.push_specialchar_escaped(&doctitle);
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_specialchar_escaped(utils::xref::remove_leading_hash(&href));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push_ch('[');
+      self.push_specialchar_escaped(target.strip_prefix('#').unwrap_or(target));
+      self.push_ch(']');
     }
   }
 
@@ -371,7 +391,7 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    tag.push_specialchar_escaped(target);
+    tag.push_attr_value(target);
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -419,7 +439,8 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       OpenTag::new("a", &NoAttrs)
     };
-    a_tag.push([" href=\"mailto:", address]);
+    a_tag.push_str(" href=\"mailto:");
+    a_tag.push_attr_value(address);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_url_encoded(subject);
@@ -431,7 +452,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_specialchar_escaped(address);
     }
   }
 
@@ -451,7 +472,8 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
-      self.push([&appendix_caption, " "]);
+      self.push_specialchar_escaped(&appendix_caption);
+      self.push_ch(' ');
     }
 
     let letter = (self.state().appendix_caption_num + b'A') as char;
@@ -499,7 +521,8 @@ pub trait HtmlBackend: HtmlBuf {
         && self.doc_meta().get_doctype() == DocType::Book
         && let Some(chapter_signifier) = self.doc_meta().string("chapter-signifier")
       {
-        self.push([&chapter_signifier, " "]);
+        self.push_specialchar_escaped(&chapter_signifier);
+        self.push_ch(' ');
       }
       self.push_section_number_prefix(level);
     }
@@ -536,7 +559,8 @@ pub trait HtmlBackend: HtmlBuf {
       let largest_representable_roman = 3999;
       if part_num <= largest_representable_roman {
         if let Some(part_signifier) = self.doc_meta().string("part-signifier") {
-          self.push([&part_signifier, " "]);
+          self.push_specialchar_escaped(&part_signifier);
+          self.push_ch(' ');
         }
         let roman = &to_roman_numeral(part_num as u16).unwrap();
         self.push_str(roman);
@@ -547,7 +571,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_admonition_block_textlabel(&mut self, kind: AdmonitionKind, block: &Block) {
     if let Some(caption) = block.meta.attrs.named("caption") {
-      self.push_str(caption);
+      self.push_attr_value(caption);
       return;
     }
 
@@ -555,14 +579,12 @@ pub trait HtmlBackend: HtmlBuf {
       return;
     }
 
-    let mut s = String::new();
-    self.swapbuf(&mut s);
-    if let Some(caption) = self.doc_meta().str(kind.caption_name()) {
-      s.push_str(caption);
+    // NB: also used within attributes, so quotes are escaped too
+    if let Some(caption) = self.doc_meta().string(kind.caption_name()) {
+      self.push_attr_value(&caption);
     } else {
-      s.push_str(kind.str());
+      self.push_str(kind.str());
     }
-    self.swapbuf(&mut s);
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
@@ -583,14 +605,18 @@ pub trait HtmlBackend: HtmlBuf {
     block: &Block,
     items: &[ListItem],
   ) {
-    self.push([r#"<ol class=""#, class, "\""]);
+    self.push_str(r#"<ol class=""#);
+    self.push_attr_value(class);
+    self.push_ch('"');
 
     if list_type != "1" {
       self.push([" type=\"", list_type, "\""]);
     }
 
     if let Some(attr_start) = block.meta.attrs.named("start") {
-      self.push([" start=\"", attr_start, "\""]);
+      self.push_str(" start=\"");
+      self.push_attr_value(attr_start);
+      self.push_ch('"');
     } else {
       match items[0].marker {
         ListMarker::Digits(1) => {}
@@ -643,14 +669,16 @@ pub trait HtmlBackend: HtmlBuf {
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
     let level_str = crate::num_str!(level + 1);
     if let Some(id) = id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\""]);
+      self.push(["<h", &level_str, r#" id=""#]);
+      self.push_attr_value(id);
+      self.push_ch('"');
     } else {
       self.push(["<h", &level_str]);
     }
     self.push_str(r#" class="discrete"#);
     for role in block.meta.attrs.roles() {
       self.push_ch(' ');
-      self.push_str(role);
+      self.push_attr_value(role);
     }
     self.push_str("\">");
   }
@@ -662,7 +690,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_toc_node(&mut self, node: &TocNode) {
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
-      self.push_str(id);
+      self.push_attr_value(id);
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
@@ -731,16 +759,21 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
     let level_str = crate::num_str!(section.level + 1);
     if let Some(id) = &section.id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
+      self.push(["<h", &level_str, r#" id=""#]);
+      self.push_attr_value(id);
+      self.push_str("\">");
       if self.doc_meta().is_true("sectanchors") {
-        self.push([r##"<a class="anchor" href="#"##, id]);
+        self.push_str(r##"<a class="anchor" href="#"##);
+        self.push_attr_value(id);
         if accessible {
           self.push_str(r#"" aria-hidden="true"#);
         }
         self.push_str("\"></a>");
       }
       if self.doc_meta().is_true("sectlinks") {
-        self.push([r##"<a class="link" href="#"##, id, "\">"]);
+        self.push_str(r##"<a class="link" href="#"##);
+        self.push_attr_value(id);
+        self.push_str("\">");
       }
     } else {
       self.push(["<h", &level_str, ">"]);
@@ -769,10 +802,10 @@ pub trait HtmlBackend: HtmlBuf {
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
     self.push_str(r#"<title>"#);
     if let Some(title) = attrs.str("title") {
-      self.push_str(title);
+      self.push_specialchar_escaped(title);
     } else if let Some(title) = document.title() {
       for s in title.main.plain_text() {
-        self.push_str(s);
+        self.push_specialchar_escaped(s);
       }
     } else {
       self.push_str("Untitled");
@@ -797,8 +830,7 @@ pub trait HtmlBackend: HtmlBuf {
       if index > 0 {
         self.push_str(", ");
       }
-      // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      self.push_attr_value(&author.fullname());
     }
     self.push_str(r#"">"#);
   }
@@ -808,7 +840,10 @@ pub trait HtmlBackend: HtmlBuf {
       Some(AttrValue::String(path)) => {
         let ext = crate::utils::file_ext(path).unwrap_or("ico");
         self.push_str(r#"<link rel="icon" type="image/"#);
-        self.push([ext, r#"" href=""#, path, "\">"]);
+        self.push_attr_value(ext);
+        self.push_str(r#"" href=""#);
+        self.push_attr_value(path);
+        self.push_str("\">");
       }
       Some(AttrValue::Bool(true)) => {
         self.push_str(r#"<link rel="icon" type="image/x-icon" href="favicon.ico">"#);
@@ -835,7 +870,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
       backend.push_str("data:image/");
       if let Some(ext) = file::ext(target) {
         let mimetype = iff!(ext == "svg", "svg+xml", ext);
-        backend.push_str(mimetype);
+        backend.push_attr_value(mimetype);
       } else {
         backend.push_str("application/octet-stream");
       }
@@ -846,7 +881,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
     None => {
       if target.starts_with("data:") {
-        backend.push_str(target);
+        backend.push_attr_value(target);
       } else {
         backend.push_img_path(target);
       }
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..cd98532 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -9,12 +9,19 @@ pub trait HtmlBuf {
   fn htmlbuf(&mut self) -> &mut String;
   fn swapbuf(&mut self, s: &mut String);
 
+  /// escape for an attribute holding prose (`title`, `alt`, ...)
   fn push_str_attr_escaped(&mut self, s: &str) {
-    push_escaped(s, self.htmlbuf(), true);
+    push_escaped(s, self.htmlbuf(), Quotes::Typographic);
   }
 
+  /// escape for an attribute holding a name, number, url, etc.
+  fn push_attr_value(&mut self, s: &str) {
+    push_escaped(s, self.htmlbuf(), Quotes::Double);
+  }
+
+  /// escape for text content
   fn push_specialchar_escaped(&mut self, s: &str) {
-    push_escaped(s, self.htmlbuf(), false);
+    push_escaped(s, self.htmlbuf(), Quotes::Keep);
   }
 
   fn push_url_encoded(&mut self, s: &str) {
@@ -87,7 +94,8 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
+      self.push_str(r#" target=""#);
+      self.push_attr_value(window);
       if window == "_blank" || attrs.has_option("noopener") {
         self.push_str("\" rel=\"noopener");
       }
@@ -147,41 +155,32 @@ pub trait AltHtmlBuf: HtmlBuf {
   }
 }
 
-fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
-  let mut it = src.chars().peekable();
-  let mut pos = 0;
-  while let Some(c) = it.next() {
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Quotes {
+  Keep,
+  Double,
+  Typographic,
+}
+
+fn push_escaped(src: &str, dest: &mut String, quotes: Quotes) {
+  for (pos, c) in src.char_indices() {
     match c {
-      '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
-        }
-      }
+      '&' if NUMERIC_CHAR_REF.is_match(&src[pos..]) => dest.push(c),
       '&' => dest.push_str("&amp;"),
       '<' => dest.push_str("&lt;"),
       '>' => dest.push_str("&gt;"),
-      '"' if escape_quotes => dest.push_str("&quot;"),
-      '\'' if escape_quotes => dest.push_str("&#8217;"),
+      '"' if quotes != Quotes::Keep => dest.push_str("&quot;"),
+      '\'' if quotes == Quotes::Typographic => dest.push_str("&#8217;"),
       _ => dest.push(c),
     }
-    pos += c.len_utf8();
   }
 }
 
 fn push_url_encoded(buf: &mut String, s: &str) {
-  for c in s.chars() {
-    match c {
-      ' ' => buf.push_str("%20"),
-      ',' => buf.push_str("%2C"),
-      _ => buf.push(c),
-    }
-  }
+  let encoded = s.replace(' ', "%20").replace(',', "%2C");
+  push_escaped(&encoded, buf, Quotes::Double);
 }
 
 lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
+  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"^&#(?:[0-9]+|x[0-9a-fA-F]+);").unwrap();
 }
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..6e52afe 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -43,7 +43,9 @@ impl OpenTag {
     tag.buf.push_str(elem);
 
     if id && let Some(id) = attrs.id() {
-      tag.push_html_attr("id", id);
+      tag.buf.push_str(" id=\"");
+      tag.push_attr_value(id);
+      tag.buf.push('"');
     }
 
     let mut roles = attrs.roles();
@@ -97,7 +99,7 @@ impl OpenTag {
     if let Some(prefix) = prefix {
       self.buf.push_str(prefix);
     }
-    self.buf.push_str(class.as_ref());
+    self.push_attr_value(class.as_ref());
   }
 
   pub fn push_resolved_attr_class(
@@ -164,7 +166,7 @@ impl OpenTag {
       } else {
         self.buf.push(' ');
       }
-      self.buf.push_str(&append_classes);
+      self.push_attr_value(&append_classes);
     }
     if self.opened_classes {
       self.buf.push('"');
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 9af92b4..7109ee2 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -28,26 +28,35 @@ fn service<B: HtmlBackend + ?Sized>(
   if let Some(param) = provider.slash_param()
     && let Some((id, hash)) = target_parts
   {
-    backend.push([id, "?", param, "=", hash]);
+    backend.push_attr_value(id);
+    backend.push(["?", param, "="]);
+    backend.push_attr_value(hash);
     param_pushed = true;
   } else if provider == Provider::YouTube && target.contains(",") {
     for (index, id) in target.split(",").enumerate() {
       if index == 0 {
-        backend.push([id, "?playlist=", id]);
+        backend.push_attr_value(id);
+        backend.push_str("?playlist=");
         param_pushed = true;
       } else {
-        backend.push([",", id]);
+        backend.push_ch(',');
       }
+      backend.push_attr_value(id);
     }
   } else if provider == Provider::YouTube
     && let Some(playlist) = attrs.named("playlist")
   {
-    backend.push([target, "?playlist=", target, ",", playlist]);
+    backend.push_attr_value(target);
+    backend.push_str("?playlist=");
+    backend.push_attr_value(target);
+    backend.push_ch(',');
+    backend.push_attr_value(playlist);
     param_pushed = true;
   } else {
-    backend.push_str(target);
+    backend.push_attr_value(target);
     if let Some(hash) = attrs.named("hash") {
-      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", hash]);
+      backend.push([iff!(param_pushed, "&amp;", "?"), "h="]);
+      backend.push_attr_value(hash);
       param_pushed = true;
     }
   }
@@ -66,10 +75,11 @@ fn service<B: HtmlBackend + ?Sized>(
   // start param (last because vimeo uses # frag not &)
   if let Some(start) = attrs.named("start") {
     match provider {
-      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", start]),
-      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", start]),
-      Provider::Vimeo => backend.push(["#at=", start]),
+      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start="]),
+      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time="]),
+      Provider::Vimeo => backend.push_str("#at="),
     }
+    backend.push_attr_value(start);
   }
 
   backend.push_str("\" frameborder=\"0\"");
@@ -96,23 +106,22 @@ fn native_element<B: HtmlBackend + ?Sized>(
   if !regx::URI_SNIFF.is_match(target)
     && let Some(ref imagesdir) = imagesdir
   {
-    backend.push([imagesdir, "/"]);
-  }
-  backend.push_str(target);
-  let start = attrs.named("start");
-  let end = attrs.named("end");
-  match (start, end) {
-    (None, Some(end)) => backend.push(["#t=,", end, "\""]),
-    (Some(start), None) => backend.push(["#t=", start, "\""]),
-    (Some(start), Some(end)) => backend.push(["#t=", start, ",", end, "\""]),
-    (None, None) => backend.push_ch('"'),
+    backend.push_attr_value(imagesdir);
+    backend.push_ch('/');
   }
+  backend.push_attr_value(target);
+  backend.push_media_fragment(attrs);
+  backend.push_ch('"');
   push_dims(backend, attrs);
   if let Some(poster) = poster {
     if !regx::URI_SNIFF.is_match(poster)
       && let Some(ref imagesdir) = imagesdir
     {
-      backend.push([" poster=\"", imagesdir, "/", poster, "\""]);
+      backend.push_str(" poster=\"");
+      backend.push_attr_value(imagesdir);
+      backend.push_ch('/');
+      backend.push_attr_value(poster);
+      backend.push_ch('"');
     } else {
       backend.push_html_attr("poster", poster);
     }
@@ -147,15 +156,18 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   ]);
   *param_pushed = true;
   if let Some(theme) = attrs.named("theme") {
-    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
+    backend.push_str(iff!(*param_pushed, "&amp;theme=", "?theme="));
+    backend.push_attr_value(theme);
     *param_pushed = true;
   }
   if let Some(lang) = attrs.named("lang") {
-    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
+    backend.push_str(iff!(*param_pushed, "&amp;hl=", "?hl="));
+    backend.push_attr_value(lang);
     *param_pushed = true;
   }
   if let Some(end) = attrs.named("end") {
-    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), end]);
+    backend.push_str(iff!(*param_pushed, "&amp;end=", "?end="));
+    backend.push_attr_value(end);
     *param_pushed = true;
   }
   if attrs.has_option("nofullscreen") {
@@ -167,10 +179,12 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     *param_pushed = true;
   }
   if let Some(list) = attrs.named("list") {
-    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), list]);
+    backend.push_str(iff!(*param_pushed, "&amp;list=", "?list="));
+    backend.push_attr_value(list);
     *param_pushed = true;
   } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
-    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", target]);
+    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist="]);
+    backend.push_attr_value(target);
     *param_pushed = true;
   }
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6816796..2012035 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -119,7 +119,11 @@ impl Backend for AsciidoctorHtml {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
-        self.push([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
+        self.push_str(r#"<div id="footer-text">"#);
+        self.push_specialchar_escaped(&label);
+        self.push_ch(' ');
+        self.push_specialchar_escaped(&rev);
+        self.push_str("<br></div>");
       }
       // TODO: last-update-label
     }
@@ -159,17 +163,21 @@ impl Backend for AsciidoctorHtml {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<div id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push_str(r#"<div id=""#);
+    self.push_attr_value(id);
+    self.push_str(r#"" class=""#);
+    self.push_attr_value(&self.doc_meta.string_or("toc-class", "toc"));
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
-    self.push([r#""><div id=""#, id, r#"title""#]);
+    self.push_str(r#""><div id=""#);
+    self.push_attr_value(id);
+    self.push_str(r#"title""#);
     if macro_block.is_some() {
       self.push_str(r#" class="title""#);
     }
     self.push_ch('>');
-    self.push_str(&toc.title);
+    self.push_specialchar_escaped(&toc.title);
     self.push_str("</div>");
   }
 
@@ -217,11 +225,14 @@ impl Backend for AsciidoctorHtml {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id, "\""]);
+      self.push_str(r#" id=""#);
+      self.push_attr_value(id);
+      self.push_ch('"');
     }
     self.push_str(r#" class="sect0"#);
     for role in title.meta.attrs.roles() {
-      self.push([" ", role]);
+      self.push_ch(' ');
+      self.push_attr_value(role);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -355,10 +366,12 @@ impl Backend for AsciidoctorHtml {
     let doc_lang = self.doc_meta.string("source-language");
     if block.meta.attrs.is_source() || doc_lang.is_some() {
       self.push_str(r#" class="highlight"><code"#);
-      if let Some(lang) = block.meta.attrs.source_language() {
-        self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
-      } else if let Some(lang) = doc_lang {
-        self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
+      if let Some(lang) = block.meta.attrs.source_language().or(doc_lang.as_deref()) {
+        self.push_str(" class=\"language-");
+        self.push_attr_value(lang);
+        self.push_str("\" data-lang=\"");
+        self.push_attr_value(lang);
+        self.push_ch('"');
       }
       self.push_ch('>');
       self.state.ephemeral.insert(IsSourceBlock);
@@ -578,18 +591,16 @@ impl Backend for AsciidoctorHtml {
       if labelwidth.is_some() || itemwidth.is_some() {
         self.push_str("<colgroup>");
         if let Some(labelwidth) = labelwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            labelwidth.trim_end_matches('%')
-          ));
+          self.push_str(r#"<col style="width: "#);
+          self.push_attr_value(labelwidth.trim_end_matches('%'));
+          self.push_str("%;\">");
         } else {
           self.push_str("<col>");
         }
         if let Some(itemwidth) = itemwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            itemwidth.trim_end_matches('%')
-          ));
+          self.push_str(r#"<col style="width: "#);
+          self.push_attr_value(itemwidth.trim_end_matches('%'));
+          self.push_str("%;\">");
         } else {
           self.push_str("<col>");
         }
@@ -1070,13 +1081,19 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\"></a>"]);
+      self.push_str("<a id=\"");
+      self.push_attr_value(id);
+      self.push_str("\"></a>");
     }
   }
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    self.push_str("<a id=\"");
+    self.push_attr_value(id);
+    self.push_str("\"></a>[");
+    self.push_specialchar_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   #[instrument(skip_all)]
@@ -1110,7 +1127,9 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push_str(r#"<b class="button">"#);
+    self.push_specialchar_escaped(text);
+    self.push_str("</b>");
   }
 
   #[instrument(skip_all)]
@@ -1118,7 +1137,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(r#"<span class="icon"#);
     attrs.roles.iter().for_each(|role| {
       self.push_str(" ");
-      self.push_str(role);
+      self.push_attr_value(role);
     });
     self.push_str(r#"">"#);
     let has_link = if let Some(link) = attrs.named("link") {
@@ -1133,14 +1152,14 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
@@ -1148,15 +1167,18 @@ impl Backend for AsciidoctorHtml {
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_attr_value(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_str(r#" fa-"#);
+          self.push_attr_value(size);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_str(r#" fa-flip-"#);
+          self.push_attr_value(flip);
         }
         if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_str(r#" fa-rotate-"#);
+          self.push_attr_value(rotate);
         }
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1240,7 +1262,9 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push_str("<kbd>");
+      self.push_specialchar_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</span>");
@@ -1308,17 +1332,19 @@ impl Backend for AsciidoctorHtml {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(items.next().unwrap());
     self.push_str("</b>");
 
     let last_idx = items.len() - 1;
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
-        self.push(["menuitem\">", item, "</b>"]);
+        self.push_str("menuitem\">");
       } else {
-        self.push(["submenu\">", item, "</b>"]);
+        self.push_str("submenu\">");
       }
+      self.push_specialchar_escaped(item);
+      self.push_str("</b>");
     }
     self.push_str("</span>");
   }
@@ -1341,7 +1367,7 @@ impl Backend for AsciidoctorHtml {
     {
       self.push_str(r#"<img src=""#);
       self.push_icon_img_path();
-      self.push_str(custom_icon);
+      self.push_attr_value(custom_icon);
       if !file::has_ext(custom_icon) {
         self.push_icon_inferred_img_ext();
       }
@@ -1406,7 +1432,7 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(href);
+      a_tag.push_attr_value(href);
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
@@ -1485,7 +1511,9 @@ impl Backend for AsciidoctorHtml {
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-      self.push([r#" id="_footnote_"#, id, "\""]);
+      self.push_str(r#" id="_footnote_"#);
+      self.push_attr_value(id);
+      self.push_ch('"');
     }
     self.push_str(r#">[<a id="_footnoteref_"#);
     self.push([&nums, r##"" class="footnote" href="#_footnotedef_"##, &nums]);
@@ -1570,13 +1598,13 @@ impl AsciidoctorHtml {
       self.push_str(r#"<div class="title">"#);
     }
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push_str(custom_caption);
+      self.push_specialchar_escaped(custom_caption);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push_str(&caption);
+      self.push_specialchar_escaped(&caption);
       self.push_ch(' ');
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
@@ -1626,11 +1654,11 @@ impl AsciidoctorHtml {
         }
         Some(custom) => custom,
       };
-      self.push([
+      self.push_str(
         r#"<link rel="stylesheet" href="https://fonts.googleapis.com/css?family="#,
-        family,
-        "\" />",
-      ]);
+      );
+      self.push_attr_value(family);
+      self.push_str("\" />");
     }
 
     self.render_embedded_stylesheet(crate::css::DEFAULT);
@@ -1665,7 +1693,9 @@ impl AsciidoctorHtml {
   fn render_division_start(&mut self, id: &str) {
     self.push([r#"<div id=""#, id, "\""]);
     if let Some(max_width) = self.doc_meta.string("max-width") {
-      self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+      self.push_str(r#" style="max-width: "#);
+      self.push_attr_value(&max_width);
+      self.push_str(r#";">"#);
     } else {
       self.push_str(">");
     }
@@ -1689,7 +1719,10 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push_str(r#"<span id="revnumber">"#);
+      self.push_specialchar_escaped(&label);
+      self.push_ch(' ');
+      self.push_specialchar_escaped(&revnumber);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
@@ -1697,10 +1730,14 @@ impl AsciidoctorHtml {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([r#"<span id="revdate">"#, &revdate, "</span>"]);
+      self.push_str(r#"<span id="revdate">"#);
+      self.push_specialchar_escaped(&revdate);
+      self.push_str("</span>");
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_str(r#"<br><span id="revremark">"#);
+      self.push_specialchar_escaped(&revremark);
+      self.push_str("</span>");
     }
     self.push_str("</div>");
   }
@@ -1711,7 +1748,7 @@ impl AsciidoctorHtml {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str(r#"" class="author">"#);
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
 
     if let Some(email) = &author.email {
@@ -1720,9 +1757,9 @@ impl AsciidoctorHtml {
         self.push_str(&(index + 1).to_string());
       }
       self.push_str(r#"" class="email"><a href="mailto:"#);
-      self.push_str(email);
+      self.push_attr_value(email);
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_specialchar_escaped(email);
       self.push_str("</a></span><br>");
     }
   }
-- 
2.43.0


From afa83cfc982ba2855a8544f12ed1b8ef2dfe7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 48/99] fix: an AsciiDoc table cell holds no header, footer or
 end of the page

---
 backend-html5s/src/html5s.rs            | 4 +++-
 dr-html-backend/src/asciidoctor_html.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 6315354..7af7276 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -39,6 +39,9 @@ impl Backend for Html5s {
 
   fn enter_document(&mut self, document: &Document) {
     self.doc_meta = document.meta.clone();
+    if self.state.in_asciidoc_table_cell {
+      self.doc_meta.embedded = true;
+    }
     utils::set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
 
@@ -731,7 +734,6 @@ impl Backend for Html5s {
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 2012035..83e71cb 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -40,6 +40,9 @@ impl Backend for AsciidoctorHtml {
     configure_test_tracing();
 
     self.doc_meta = document.meta.clone();
+    if self.state.in_asciidoc_table_cell {
+      self.doc_meta.embedded = true;
+    }
     set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
     if document.meta.is_true("hardbreaks-option") {
@@ -797,7 +800,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From d30a0b13dc4aae6f3ca409997b71b9b5edd13b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 49/99] fix: sections and captions are numbered in document
 order

A table of contents placed in the body restarted the numbers of the sections
after it (and gave its entries the numbers of the sections before it), an
appendix restarted the chapters after it, every appendix numbered its
subsections "A", the 27th appendix got a "[" and the counters overflowed.
Captions in AsciiDoc table cells restarted at 1.
---
 backend-html5s/src/html5s.rs            |  11 +++
 backend/src/html/backend.rs             | 117 ++++++++++++++++--------
 dr-html-backend/src/asciidoctor_html.rs |  11 +++
 3 files changed, 103 insertions(+), 36 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7af7276..2493cce 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -154,6 +154,7 @@ impl Backend for Html5s {
       self.start_buffering();
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
@@ -730,10 +731,12 @@ impl Backend for Html5s {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.continue_captions_of(self);
     backend
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
+    self.continue_captions_of(&cell_backend);
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
@@ -1522,6 +1525,14 @@ impl Html5s {
     }
   }
 
+  /// captions are numbered through the whole document, cells included
+  fn continue_captions_of(&mut self, other: &Self) {
+    self.fig_caption_num = other.fig_caption_num;
+    self.table_caption_num = other.table_caption_num;
+    self.example_caption_num = other.example_caption_num;
+    self.listing_caption_num = other.listing_caption_num;
+  }
+
   fn render_block_title(&mut self, title: &str, block: &Block, wrap_in_h6: bool) {
     if wrap_in_h6 {
       self.push_str(r#"<h6 class="block-title">"#);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 5b2f36b..2081dd3 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -13,11 +13,12 @@ use crate::{
 
 #[derive(Debug, Default)]
 pub struct BackendState {
-  pub section_nums: [u16; 5],
+  pub section_nums: [u32; 5],
   pub section_num_levels: isize,
   pub ephemeral: HashSet<EphemeralState>,
-  pub appendix_caption_num: u8,
+  pub appendix_caption_num: u32,
   pub book_part_num: usize,
+  pub outer_numbering: Vec<Numbering>,
   pub desc_list_depth: u8,
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
@@ -26,6 +27,28 @@ pub struct BackendState {
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
 }
 
+/// the numbering to go on with after an appendix or a table of contents
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+pub struct Numbering {
+  section_nums: [u32; 5],
+  appendix_caption_num: u32,
+  book_part_num: usize,
+  in_appendix: bool,
+}
+
+/// `A` to `Z`, then `AA`, `AB`, ...
+fn appendix_letter(num: u32) -> String {
+  let mut letters = String::new();
+  let mut rest = num;
+  loop {
+    letters.insert(0, (b'A' + (rest % 26) as u8) as char);
+    if rest < 26 {
+      return letters;
+    }
+    rest = rest / 26 - 1;
+  }
+}
+
 pub trait HtmlBackend: HtmlBuf {
   fn state(&self) -> &BackendState;
   fn state_mut(&mut self) -> &mut BackendState;
@@ -158,11 +181,11 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_ch(']');
     }
   }
-  fn section_nums(&mut self) -> &[u16; 5] {
+  fn section_nums(&mut self) -> &[u32; 5] {
     &self.state().section_nums
   }
 
-  fn section_nums_mut(&mut self) -> &mut [u16; 5] {
+  fn section_nums_mut(&mut self) -> &mut [u32; 5] {
     &mut self.state_mut().section_nums
   }
 
@@ -178,11 +201,11 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().ephemeral
   }
 
-  fn appendix_caption_num(&self) -> u8 {
+  fn appendix_caption_num(&self) -> u32 {
     self.state().appendix_caption_num
   }
 
-  fn appendix_caption_num_mut(&mut self) -> &mut u8 {
+  fn appendix_caption_num_mut(&mut self) -> &mut u32 {
     &mut self.state_mut().appendix_caption_num
   }
 
@@ -194,11 +217,55 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
-  fn on_toc_exit(&mut self) {
+  /// a toc numbers the document from its start, wherever it is placed
+  fn on_toc_enter(&mut self) {
+    self.save_numbering();
     let state = self.state_mut();
     state.section_nums = [0; 5];
     state.appendix_caption_num = 0;
     state.book_part_num = 0;
+    state.ephemeral.remove(&EphemeralState::InAppendix);
+  }
+
+  fn on_toc_exit(&mut self) {
+    if let Some(outer) = self.restore_section_numbering() {
+      self.state_mut().appendix_caption_num = outer.appendix_caption_num;
+      self.state_mut().book_part_num = outer.book_part_num;
+    }
+  }
+
+  fn save_numbering(&mut self) {
+    let state = self.state_mut();
+    let numbering = Numbering {
+      section_nums: state.section_nums,
+      appendix_caption_num: state.appendix_caption_num,
+      book_part_num: state.book_part_num,
+      in_appendix: state.ephemeral.contains(&EphemeralState::InAppendix),
+    };
+    state.outer_numbering.push(numbering);
+  }
+
+  fn restore_section_numbering(&mut self) -> Option<Numbering> {
+    let state = self.state_mut();
+    let outer = state.outer_numbering.pop()?;
+    state.section_nums = outer.section_nums;
+    if outer.in_appendix {
+      state.ephemeral.insert(EphemeralState::InAppendix);
+    } else {
+      state.ephemeral.remove(&EphemeralState::InAppendix);
+    }
+    Some(outer)
+  }
+
+  fn enter_appendix(&mut self) {
+    self.save_numbering();
+    let state = self.state_mut();
+    state.section_nums = [state.appendix_caption_num, 0, 0, 0, 0];
+    state.ephemeral.insert(EphemeralState::InAppendix);
+  }
+
+  fn exit_appendix(&mut self) {
+    self.restore_section_numbering();
   }
 
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
@@ -476,8 +543,8 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_ch(' ');
     }
 
-    let letter = (self.state().appendix_caption_num + b'A') as char;
-    self.push_ch(letter);
+    let letter = appendix_letter(self.state().appendix_caption_num);
+    self.push_str(&letter);
     self.state_mut().appendix_caption_num += 1;
 
     if self.doc_meta().is_false("appendix-caption") {
@@ -502,10 +569,8 @@ pub trait HtmlBackend: HtmlBuf {
     // for idx in 0..=level_idx {
     for (idx, sect_num) in sect_nums.iter().enumerate().take(level_idx + 1) {
       if appendix && idx == 0 {
-        // self.push_ch((b'A' + sect_nums[idx] as u8) as char);
-        self.push_ch((b'A' + *sect_num as u8) as char);
+        self.push_str(&appendix_letter(*sect_num));
       } else {
-        // self.push_str(&sect_nums[idx].to_string());
         self.push_str(&sect_num.to_string());
       }
       self.push_ch('.');
@@ -694,11 +759,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_appendix();
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -709,24 +770,14 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_appendix();
     }
     self.push_str("</li>");
   }
 
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.enter_appendix(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
@@ -739,13 +790,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.exit_appendix(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 83e71cb..862332a 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -163,6 +163,7 @@ impl Backend for AsciidoctorHtml {
       self.push_str("</div>"); // close preamble section body
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
@@ -795,11 +796,13 @@ impl Backend for AsciidoctorHtml {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.continue_captions_of(self);
     backend
   }
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
+    self.continue_captions_of(&cell_backend);
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
@@ -1593,6 +1596,14 @@ impl AsciidoctorHtml {
     }
   }
 
+  /// captions are numbered through the whole document, cells included
+  fn continue_captions_of(&mut self, other: &Self) {
+    self.fig_caption_num = other.fig_caption_num;
+    self.table_caption_num = other.table_caption_num;
+    self.example_caption_num = other.example_caption_num;
+    self.listing_caption_num = other.listing_caption_num;
+  }
+
   fn render_block_title(&mut self, title: &str, block: &Block) {
     if block.context == BlockContext::Table {
       self.push_str(r#"<caption class="title">"#);
-- 
2.43.0


From 48861b6379b867a38664159ce2301536b545e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 50/99] fix: sections are listed in the table of contents and
 kept where they are

A special section of a multi-part book (`= Title`) followed by two levels of
subsections crashed the table of contents, as did a section below one that is
out of sequence; parts after such a special section were dropped from the
document. An AsciiDoc table cell forgot the attributes set in the body before it.
---
 core/src/attrs.rs                   |  4 ++++
 core/src/document_meta.rs           |  2 ++
 parser/src/tasks/parse_book.rs      |  7 +++++++
 parser/src/tasks/parse_book_part.rs |  3 +--
 parser/src/tasks/parse_section.rs   | 27 +++------------------------
 5 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/core/src/attrs.rs b/core/src/attrs.rs
index 8368cb4..4a6d885 100644
--- a/core/src/attrs.rs
+++ b/core/src/attrs.rs
@@ -205,6 +205,10 @@ impl Attrs {
   pub fn iter(&self) -> impl Iterator<Item = (&String, &AttrValue)> {
     self.0.iter()
   }
+
+  pub(crate) fn extend(&mut self, other: Self) {
+    self.0.extend(other.0);
+  }
 }
 
 pub(crate) trait RemoveAttr {
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index be5c79c..8a39a72 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -73,6 +73,8 @@ impl DocumentMeta {
 
   pub fn clone_for_cell(&self) -> Self {
     let mut dm = self.clone();
+    // attributes set so far apply to the whole cell, whose own header comes after them
+    dm.header_attrs.extend(std::mem::take(&mut dm.doc_attrs));
     dm.remove_attr("doctype");
     dm.set_doctype(DocType::Article);
     // toc in asciidoc cells are disconnected, see:
diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..1f5e0c5 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -25,6 +25,13 @@ impl<'arena> Parser<'arena> {
       let mut closing_special_sects = bvec![in self.bump];
       while let Some(special) = self.parse_special_sect()? {
         closing_special_sects.push(special);
+        // special sections between two parts stay where they were written
+        while let Some(part) = self.parse_book_part()? {
+          if let Some(last_part) = parts.last_mut() {
+            last_part.sections.append(&mut closing_special_sects);
+          }
+          parts.push(part);
+        }
       }
       return Ok(Some(DocContent::Parts(MultiPartBook {
         preamble: None,
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..2a93df4 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -17,7 +17,7 @@ impl<'arena> Parser<'arena> {
       meta,
       mut lines,
       authored_level,
-      semantic_level,
+      ..
     } = peeked;
     let mut heading_line = lines.consume_current().unwrap();
     let equals = heading_line.consume_current().unwrap();
@@ -26,7 +26,6 @@ impl<'arena> Parser<'arena> {
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
     self.push_toc_node(
       authored_level,
-      semantic_level,
       &heading,
       id.as_ref(),
       meta.attrs.special_sect(),
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..aaf9d5e 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -97,7 +97,6 @@ impl<'arena> Parser<'arena> {
     if !out_of_sequence {
       self.push_toc_node(
         authored_level,
-        semantic_level,
         &heading,
         id.as_ref(),
         meta.attrs.special_sect(),
@@ -168,7 +167,6 @@ impl<'arena> Parser<'arena> {
   pub fn push_toc_node(
     &mut self,
     authored_level: u8,
-    semantic_level: u8,
     heading: &InlineNodes<'arena>,
     as_ref: Option<&BumpString<'arena>>,
     special_sect: Option<SpecialSection>,
@@ -187,29 +185,10 @@ impl<'arena> Parser<'arena> {
       children: BumpVec::new_in(self.bump),
     };
     let mut nodes: &mut BumpVec<'_, TocNode<'_>> = toc.nodes.as_mut();
-    let Some(last_level) = nodes.last().map(|n| n.level) else {
-      nodes.push(node);
-      return;
-    };
-    if authored_level < last_level || authored_level == 0 {
-      nodes.push(node);
-      return;
-    }
-
-    let mut depth = semantic_level;
-
-    // special case: book special sections can go from 0 to 2
-    if last_level == 0
-      && semantic_level == 2
-      && !nodes.last().unwrap().children.iter().any(|n| n.level == 1)
-    {
-      depth = 1;
-    }
-
-    while depth > last_level {
-      // we don't push out of sequence sections, shouldn't panic
+    // levels can be skipped: book special sections go from 0 to 2,
+    // and there are no nodes for out of sequence sections
+    while nodes.last().is_some_and(|last| last.level < authored_level) {
       nodes = nodes.last_mut().unwrap().children.as_mut();
-      depth -= 1;
     }
     nodes.push(node);
   }
-- 
2.43.0


From 2f3162541ca2dca8499217cbdd64eadc694ab5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 51/99] fix: buffered html nests

A footnote inside a block title, or an image linking to itself inside
either, panicked or mixed up what was being written.
---
 backend-html5s/src/html5s.rs            | 10 +++++-----
 backend/src/html/htmlbuf.rs             | 21 ++++++++-------------
 dr-html-backend/src/asciidoctor_html.rs |  8 ++++----
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 2493cce..e920dae 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -11,6 +11,7 @@ pub struct Html5s {
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
+  outer_html: Vec<String>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -260,7 +261,7 @@ impl Backend for Html5s {
   }
 
   fn exit_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
-    let buffered = if !self.alt_html.is_empty() { Some(self.swap_take_buffer()) } else { None };
+    let buffered = if self.outer_html.is_empty() { None } else { Some(self.swap_take_buffer()) };
     if doc_has_title {
       self.push_str("</section>");
     }
@@ -1131,8 +1132,7 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        self.start_buffering();
         self.push_img_path(target);
         a_tag.push_str(&self.swap_take_buffer());
       } else {
@@ -1731,8 +1731,8 @@ impl AltHtmlBuf for Html5s {
   fn alt_htmlbuf(&mut self) -> &mut String {
     &mut self.alt_html
   }
-  fn buffers(&mut self) -> (&mut String, &mut String) {
-    (&mut self.html, &mut self.alt_html)
+  fn outer_htmlbufs(&mut self) -> &mut Vec<String> {
+    &mut self.outer_html
   }
 }
 
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index cd98532..ceadbbb 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -111,9 +111,10 @@ pub trait HtmlBuf {
 }
 
 pub trait AltHtmlBuf: HtmlBuf {
+  /// what was buffered last, until it is taken
   fn alt_htmlbuf(&mut self) -> &mut String;
-  /// (htmlbuf, alt_htmlbuf)
-  fn buffers(&mut self) -> (&mut String, &mut String);
+  /// what was written before buffering started, innermost last
+  fn outer_htmlbufs(&mut self) -> &mut Vec<String>;
 
   fn push_buffered(&mut self) {
     let buffer = self.take_buffer();
@@ -127,9 +128,8 @@ pub trait AltHtmlBuf: HtmlBuf {
 
   #[must_use]
   fn swap_take_buffer(&mut self) -> String {
-    let (html, alt_html) = self.buffers();
-    std::mem::swap(alt_html, html);
-    std::mem::take(alt_html)
+    let outer = self.outer_htmlbufs().pop().unwrap_or_default();
+    std::mem::replace(self.htmlbuf(), outer)
   }
 
   fn swap_discard_alt_buffer(&mut self) {
@@ -141,17 +141,12 @@ pub trait AltHtmlBuf: HtmlBuf {
   }
 
   fn start_buffering(&mut self) {
-    debug_assert!(self.alt_htmlbuf().is_empty());
-    self.swap_buffers();
+    let outer = std::mem::take(self.htmlbuf());
+    self.outer_htmlbufs().push(outer);
   }
 
   fn stop_buffering(&mut self) {
-    self.swap_buffers();
-  }
-
-  fn swap_buffers(&mut self) {
-    let (html, alt_html) = self.buffers();
-    std::mem::swap(html, alt_html);
+    *self.alt_htmlbuf() = self.swap_take_buffer();
   }
 }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 862332a..7017c10 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -14,6 +14,7 @@ use utils::set_backend_attrs;
 pub struct AsciidoctorHtml {
   html: String,
   alt_html: String,
+  outer_html: Vec<String>,
   doc_meta: DocumentMeta,
   default_newlines: Newlines,
   newlines: Newlines,
@@ -1212,8 +1213,7 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        self.start_buffering();
         self.push_img_path(target);
         a_tag.push_str(&self.swap_take_buffer());
       } else {
@@ -1563,8 +1563,8 @@ impl AltHtmlBuf for AsciidoctorHtml {
     &mut self.alt_html
   }
 
-  fn buffers(&mut self) -> (&mut String, &mut String) {
-    (&mut self.html, &mut self.alt_html)
+  fn outer_htmlbufs(&mut self) -> &mut Vec<String> {
+    &mut self.outer_html
   }
 }
 
-- 
2.43.0


From 6fde5e23fb775cf6329f03e6cd3363c37e03c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 52/99] fix: a nested list with an id has the element that
 bears it in html5s

---
 backend-html5s/src/html5s.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index e920dae..3f8a970 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -515,7 +515,7 @@ impl Backend for Html5s {
     if items.iter().any(ListItem::is_checklist) {
       list.push_class("task-list");
     }
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       self.push_open_tag(wrap);
     }
     self.render_buffered_block_title(block, true);
@@ -525,7 +525,7 @@ impl Backend for Html5s {
   fn exit_unordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ul>");
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -553,7 +553,7 @@ impl Backend for Html5s {
     self.state.desc_list_depth += 1;
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       tag.push_class("dlist");
     }
     let is_horizontal = block.meta.attrs.has_str_positional("horizontal");
@@ -568,7 +568,7 @@ impl Backend for Html5s {
       self.state.ephemeral.insert(InGlossaryList);
       tag.push_class("glossary");
     }
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       self.push_open_tag(tag);
       if is_qanda {
         self.html.pop();
@@ -591,7 +591,7 @@ impl Backend for Html5s {
   fn exit_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.ephemeral.remove(&InGlossaryList);
     self.push_str("</dl>");
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
     self.state.desc_list_depth -= 1;
@@ -628,7 +628,7 @@ impl Backend for Html5s {
 
   fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
     let (class, list_type) = self.start_enter_ordered_list(block, depth);
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       let classes = &["olist", class];
       let el = if block.has_title() { "section" } else { "div" };
       self.open_element(el, classes, &block.meta.attrs);
@@ -640,7 +640,7 @@ impl Backend for Html5s {
   fn exit_ordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ol>");
-    if depth == 1 {
+    if list_is_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -1513,6 +1513,11 @@ impl Backend for Html5s {
   }
 }
 
+/// a nested list only has an element around it when that element is a link target
+fn list_is_wrapped(block: &Block, depth: u8) -> bool {
+  depth == 1 || block.meta.attrs.id().is_some()
+}
+
 impl Html5s {
   pub fn new() -> Self {
     Self::default()
-- 
2.43.0


From cd5ef004df64287473ec926b65d5206f65d66373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 53/99] fix: cross references print their own text and quote no
 ids

A reference's own text is used in preference to its target's, and text
quoted from elsewhere (in references and the table of contents) repeats
no ids, footnotes or links.
---
 eval/src/eval.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..71289d3 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -12,12 +12,15 @@ pub fn eval<B: Backend>(document: &Document, mut backend: B) -> Result<B::Output
 struct Ctx<'a, 'b> {
   doc: &'a Document<'b>,
   resolving_xref: RefCell<bool>,
+  /// evaluating text that belongs elsewhere, whose ids must not be repeated
+  quoting: RefCell<bool>,
 }
 
 pub fn visit<B: Backend>(doc: &Document, backend: &mut B) {
   let ctx = Ctx {
     doc,
     resolving_xref: RefCell::new(false),
+    quoting: RefCell::new(false),
   };
   let render_docinfo = !ctx.doc.meta.embedded;
   backend.enter_document(ctx.doc);
@@ -444,6 +447,11 @@ fn eval_block(block: &Block, ctx: &Ctx, backend: &mut impl Backend) {
 
 fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
   match &inline.content {
+    Span(kind, Some(attrs), children) if *ctx.quoting.borrow() && attrs.id.is_some() => {
+      let attrs = AttrList { id: None, ..attrs.clone() };
+      let span = Span(*kind, Some(attrs), children.clone());
+      eval_inline(&InlineNode::new(span, inline.loc), ctx, backend);
+    }
     Span(kind, attrs, children) => match kind {
       SpanKind::Text => {
         backend.enter_text_span(attrs.as_ref());
@@ -501,6 +509,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     }
     CurlyQuote(kind) => backend.visit_curly_quote(*kind),
     MultiCharWhitespace(ws) => backend.visit_multichar_whitespace(ws),
+    Macro(Footnote { .. }) if *ctx.quoting.borrow() => {}
     Macro(Footnote { id, text }) => {
       backend.enter_footnote(id.as_ref());
       if let Some(text) = text {
@@ -529,30 +538,28 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
-      backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
-        backend.visit_missing_xref(target, *kind, ctx.doc.title());
-      } else if let Some(text) = anchor
-        .map(|anchor| {
-          anchor
-            .reftext
-            .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
-        })
-        .filter(|text| !text.is_empty())
-      {
-        backend.enter_xref_text(is_biblio);
-        text.iter().for_each(|node| eval_inline(node, ctx, backend));
-        backend.exit_xref_text(is_biblio);
-      } else if let Some(text) = linktext {
+      let quoting = *ctx.quoting.borrow();
+      let resolving_xref = ctx.resolving_xref.replace(true);
+      let own_text = linktext.as_ref().filter(|text| !text.is_empty());
+      let anchor_text = anchor
+        .map(|anchor| anchor.reftext.as_ref().unwrap_or(&anchor.title))
+        .filter(|text| !text.is_empty() && !resolving_xref);
+      if !quoting {
+        backend.enter_xref(target, linktext.is_some(), *kind);
+      }
+      if let Some(text) = own_text.or(anchor_text) {
+        ctx.quoting.replace(quoting || own_text.is_none());
         backend.enter_xref_text(is_biblio);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
         backend.exit_xref_text(is_biblio);
+        ctx.quoting.replace(quoting);
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
-      backend.exit_xref(target, linktext.is_some(), *kind);
+      if !quoting {
+        backend.exit_xref(target, linktext.is_some(), *kind);
+      }
+      ctx.resolving_xref.replace(resolving_xref);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
     Macro(Plugin(plugin_macro)) => backend.visit_plugin_macro(plugin_macro),
@@ -581,6 +588,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         linktext.is_some(),
       );
     }
+    InlineAnchor(_) if *ctx.quoting.borrow() => {}
     InlineAnchor(id) => backend.visit_inline_anchor(id),
     BiblioAnchor(id) => {
       backend.visit_biblio_anchor(
@@ -695,7 +703,9 @@ fn eval_toc_at(
     return;
   }
   backend.enter_toc(toc, macro_block);
+  ctx.quoting.replace(true);
   eval_toc_level(&toc.nodes, ctx, backend);
+  ctx.quoting.replace(false);
   backend.exit_toc(toc);
 }
 
-- 
2.43.0


From b0acce831bdcc806e1acb895cb790996f3b36a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 54/99] fix: every id written is unique and can be referenced

Ids of blocks, parts and spans of every kind are registered as targets,
ids given twice are diagnosed whatever they belong to, and generated ids
avoid them all.
---
 parser/src/line.rs                    |  2 +-
 parser/src/parser.rs                  |  5 ++-
 parser/src/tasks/anchors.rs           | 46 +++++++++++++++++++++++++--
 parser/src/tasks/diagnose_document.rs | 19 ++++++-----
 parser/src/tasks/parse_block.rs       | 15 ++++++++-
 parser/src/tasks/parse_book_part.rs   | 14 ++++----
 parser/src/tasks/parse_inlines/mod.rs | 22 +++++--------
 parser/src/tasks/parse_section.rs     | 11 ++++---
 parser/src/tasks/section_id.rs        | 19 ++++++-----
 9 files changed, 102 insertions(+), 51 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 4f0423d..74abe0c 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -923,7 +923,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon])]) {
+    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon, Underscore])]) {
       return false;
     }
     let Some(close_idx) = self.index_of_seq(&[Kind(CloseBracket); 2]) else {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index c7cb2b2..421f760 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -366,7 +366,10 @@ impl<'arena> Parser<'arena> {
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
+          if let Some(reftext) = anchor.reftext {
+            let key = SourceString::new(self.string("reftext"), anchor.loc);
+            anchor_attrs.insert_named(key, reftext);
+          }
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..fe79c32 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -6,6 +6,7 @@ impl<'arena> Parser<'arena> {
     id: &SourceString<'arena>,
     anchor: Anchor<'arena>,
   ) -> Result<()> {
+    self.ctx.anchor_ids.borrow_mut().insert(id.src.clone());
     let mut anchors = self.document.anchors.borrow_mut();
     if anchors
       .get(&id.src)
@@ -27,17 +28,56 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  /// a block that is rendered with an id can be the target of a cross reference
+  pub(crate) fn insert_block_anchor(&mut self, block: &Block<'arena>) -> Result<()> {
+    use BlockContext::*;
+    let meta = &block.meta;
+    let named = |name| meta.attrs.iter().find_map(|attrs| attrs.named.get(name));
+    let (id, title) = match &block.content {
+      _ if matches!(
+        block.context,
+        Comment | DocumentAttributeDecl | PageBreak | Passthrough | Section | ThematicBreak
+      ) =>
+      {
+        return Ok(());
+      }
+      BlockContent::Empty(EmptyMetadata::DiscreteHeading { content, id, .. }) => {
+        let Some(id) = id else { return Ok(()) };
+        let loc = meta.attrs.id().map(|id| id.loc);
+        let loc = loc.or(content.first_loc()).unwrap_or(meta.start_loc);
+        (SourceString::new(id.clone(), loc), Some(content))
+      }
+      _ => {
+        let Some(id) = meta.attrs.id() else {
+          return Ok(());
+        };
+        let id = SourceString::new(self.string(&id.src), id.loc);
+        (id, named("title").or(meta.dot_line_title.as_ref()))
+      }
+    };
+    self.insert_anchor(
+      &id,
+      Anchor {
+        reftext: named("reftext").cloned(),
+        title: title.cloned().unwrap_or(InlineNodes::new(self.bump)),
+        source_loc: Some(id.loc),
+        source_idx: id.loc.include_depth,
+        is_biblio: false,
+      },
+    )
+  }
+
   pub(crate) fn anchor_from(
     &self,
     reftext: Option<InlineNodes<'arena>>,
-    source_loc: Option<SourceLocation>,
+    source_loc: SourceLocation,
     is_biblio: bool,
   ) -> Anchor<'arena> {
     Anchor {
       reftext,
       title: InlineNodes::new(self.bump),
-      source_loc,
-      source_idx: self.lexer.source_idx(),
+      source_loc: Some(source_loc),
+      source_idx: source_loc.include_depth,
       is_biblio,
     }
   }
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..b28b6b8 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -12,7 +12,7 @@ impl Parser<'_> {
       return Ok(());
     }
     for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
+      let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
@@ -25,7 +25,7 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      if idx.is_some_and(|idx| idx != anchor.source_idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -41,11 +41,10 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  /// the id referenced, and the source it must be found in, if the target names one
+  fn target_data<'a>(&self, target: &'a str) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
-    } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, "__self__"))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -53,16 +52,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((None, "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 20e08ee..984cbaa 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -4,6 +4,14 @@ use ast::short::block::*;
 
 impl<'arena> Parser<'arena> {
   pub(crate) fn parse_block(&mut self) -> Result<Option<Block<'arena>>> {
+    let block = self.parse_unanchored_block()?;
+    if let Some(block) = &block {
+      self.insert_block_anchor(block)?;
+    }
+    Ok(block)
+  }
+
+  fn parse_unanchored_block(&mut self) -> Result<Option<Block<'arena>>> {
     let Some(mut lines) = self.read_lines()? else {
       return Ok(None);
     };
@@ -19,7 +27,12 @@ impl<'arena> Parser<'arena> {
     let meta = self.parse_chunk_meta(&mut lines)?;
     if lines.is_empty() {
       self.err_line_starting("Unattached block metadata", meta.start_loc)?;
-      return self.parse_block();
+      return self.parse_unanchored_block();
+    }
+    if let Some(id) = meta.attrs.id() {
+      // not to be generated for a heading inside the block
+      let id = self.string(&id.src);
+      self.ctx.anchor_ids.borrow_mut().insert(id);
     }
 
     match self.section_start_level(&lines, &meta) {
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index 2a93df4..c6c75c8 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -22,6 +22,7 @@ impl<'arena> Parser<'arena> {
     let mut heading_line = lines.consume_current().unwrap();
     let equals = heading_line.consume_current().unwrap();
     heading_line.discard_assert(TokenKind::Whitespace);
+    let id_loc = meta.attrs.id().map_or(equals.loc, |id| id.loc);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
     self.push_toc_node(
@@ -32,16 +33,17 @@ impl<'arena> Parser<'arena> {
     );
 
     if let Some(id) = &id {
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
+      let reftext = meta.attrs.iter().find_map(|a| a.named.get("reftext"));
+      self.insert_anchor(
+        &SourceString::new(id.clone(), id_loc),
         Anchor {
-          reftext: None,
+          reftext: reftext.cloned(),
           title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_loc: Some(id_loc),
+          source_idx: id_loc.include_depth,
           is_biblio: false,
         },
-      );
+      )?;
     }
 
     let mut title = PartTitle { meta, text: heading, id };
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 85d4099..d0c5352 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -311,7 +311,7 @@ impl<'arena> Parser<'arena> {
                     reftext: attrs.take_positional(0),
                     title: InlineNodes::new(self.bump),
                     source_loc: Some(id.loc),
-                    source_idx: self.lexer.source_idx(),
+                    source_idx: id.loc.include_depth,
                     is_biblio: false,
                   },
                 )?;
@@ -576,7 +576,7 @@ impl<'arena> Parser<'arena> {
             if let Some(mut anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
                 &anchor.id,
-                self.anchor_from(anchor.reftext, Some(anchor.id.loc), true),
+                self.anchor_from(anchor.reftext, anchor.id.loc, true),
               )?;
               anchor.loc.extend(line.consume_current().unwrap().loc);
               acc.push_node(BiblioAnchor(anchor.id.src), anchor.loc);
@@ -596,7 +596,7 @@ impl<'arena> Parser<'arena> {
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
                 &anchor.id,
-                self.anchor_from(anchor.reftext, Some(anchor.id.loc), false),
+                self.anchor_from(anchor.reftext, anchor.id.loc, false),
               )?;
               acc.push_node(InlineAnchor(anchor.id.src), anchor.loc);
             } else {
@@ -992,19 +992,10 @@ impl<'arena> Parser<'arena> {
     let inner = self.parse_inlines_until(lines, &stop_tokens)?;
     extend(&mut loc, &inner, stop_len);
     let node = wrap(inner);
-    let mut had_inline_attrs = false;
     if let Inline::Span(_, Some(ref attr_list), _) = node {
       loc.extend(attr_list.loc);
-      had_inline_attrs = true;
     }
-    acc.push_node(node, loc);
-    push_newline_if_needed(acc, lines);
-    self.ctx.inline_ctx = InlineCtx::None;
-    if had_inline_attrs
-      && let Some(InlineNode {
-        content: Span(SpanKind::Text, Some(attrs), nodes),
-        ..
-      }) = acc.inlines.last()
+    if let Span(_, Some(attrs), nodes) = &node
       && let Some(id) = &attrs.id
     {
       self.insert_anchor(
@@ -1012,12 +1003,15 @@ impl<'arena> Parser<'arena> {
         Anchor {
           reftext: None,
           title: nodes.clone(),
-          source_idx: self.lexer.source_idx(),
+          source_idx: id.loc.include_depth,
           source_loc: Some(id.loc),
           is_biblio: false,
         },
       )?;
     }
+    acc.push_node(node, loc);
+    push_newline_if_needed(acc, lines);
+    self.ctx.inline_ctx = InlineCtx::None;
     Ok(())
   }
 
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index aaf9d5e..05db352 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -79,6 +79,7 @@ impl<'arena> Parser<'arena> {
       }
     };
     heading_line.discard_assert(TokenKind::Whitespace);
+    let id_loc = meta.attrs.id().map_or(err_loc, |id| id.loc);
     let id = self.section_id(&heading_line, &meta.attrs);
 
     let out_of_sequence = semantic_level > last_level && semantic_level - last_level > 1;
@@ -109,16 +110,16 @@ impl<'arena> Parser<'arena> {
         .iter()
         .find_map(|a| a.named.get("reftext"))
         .cloned();
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
+      self.insert_anchor(
+        &SourceString::new(id.clone(), id_loc),
         Anchor {
           reftext,
           title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_loc: Some(id_loc),
+          source_idx: id_loc.include_depth,
           is_biblio: false,
         },
-      );
+      )?;
     }
 
     if meta.attrs.str_positional_at(0) == Some("bibliography") {
diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..9da84ef 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
@@ -99,15 +99,14 @@ impl<'arena> Parser<'arena> {
       id.pop();
     }
 
-    if separator.is_some() && id.is_empty() {
-      return self.sequence_sectid(&id, separator);
-    }
-
-    if prefix.is_empty() && separator.map(|c| id.starts_with(c)).unwrap_or(false) {
-      id = self.string(&id[1..]);
+    if prefix.is_empty()
+      && let Some(c) = separator
+      && id.starts_with(c)
+    {
+      id = self.string(&id[c.len_utf8()..]);
     }
 
-    if self.ctx.anchor_ids.borrow().contains(&id) {
+    if id.is_empty() || self.ctx.anchor_ids.borrow().contains(&id) {
       return self.sequence_sectid(&id, separator);
     }
 
-- 
2.43.0


From e0f74d7a6ec1d8de8e3520eb8dd4d28c9c95048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 55/99] fix: anchors and references in an included table cell
 are located in their file

The lexer of an AsciiDoc cell has sources of its own: an anchor of a cell
in an included file was taken for one of the main file, an unresolved
reference panicked when its line was sought, and a reference to a file
included after the cell was taken for one to another document.
---
 backend/src/utils.rs                          |  2 ++
 core/src/document_meta.rs                     |  7 +++++--
 parser/src/lexer/root_lexer.rs                |  4 ++++
 parser/src/lexer/source_lexer.rs              |  4 ++++
 parser/src/parser.rs                          | 21 +++++++++++++++++++
 parser/src/tasks/anchors.rs                   |  6 +++++-
 .../directives/includes/process_includes.rs   |  1 +
 parser/src/tasks/parse_inlines/mod.rs         |  1 +
 8 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 79a8f76..2baf892 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -60,12 +60,14 @@ pub mod xref {
       } else {
         doc_meta
           .included_files
+          .borrow()
           .iter()
           .any(|included_file| included_file == path)
       }
     } else if !file::has_ext(path) {
       doc_meta
         .included_files
+        .borrow()
         .iter()
         .any(|included_file| file::remove_ext(included_file) == path)
     } else {
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 8a39a72..7cfa6e8 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use crate::internal::*;
 
@@ -12,7 +14,8 @@ pub struct DocumentMeta {
   header_attrs: Attrs,
   pub safe_mode: SafeMode,
   pub embedded: bool,
-  pub included_files: HashSet<String>,
+  /// shared with the cells, where a file included later can be referenced
+  pub included_files: Rc<RefCell<HashSet<String>>>,
   pub data_admonition_icons: HashMap<u64, String>,
 }
 
@@ -27,7 +30,7 @@ impl Default for DocumentMeta {
       default_attrs: Attrs::defaults(),
       authors: Vec::new(),
       embedded: false,
-      included_files: HashSet::new(),
+      included_files: Rc::default(),
       data_admonition_icons: HashMap::new(),
     }
   }
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 2f0401a..84bc5ba 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -179,6 +179,10 @@ impl<'arena> RootLexer<'arena> {
       .map(|(i, _)| i as u16)
   }
 
+  pub fn source_end(&self, idx: u16) -> u32 {
+    self.sources[idx as usize].end()
+  }
+
   pub fn byte_at(&self, pos: u32, include_depth: u16) -> Option<u8> {
     self.sources[include_depth as usize].byte_at(pos)
   }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index cfc3e17..ce57231 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -225,6 +225,10 @@ impl<'arena> SourceLexer<'arena> {
     LinesIter { src: &self.src, start: 0, end: 0 }
   }
 
+  pub fn end(&self) -> u32 {
+    self.offset + self.src.len() as u32
+  }
+
   pub fn line_of(&self, location: u32) -> BumpString<'arena> {
     let location = location - self.offset;
     let mut start = location;
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 421f760..d85aa61 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -12,6 +12,8 @@ pub struct Parser<'arena> {
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
+  /// where the document holds the text being parsed, up to its source's end, if it is a cell's
+  pub(super) cell_src: Option<SourceLocation>,
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
   #[cfg(feature = "attr_ref_observation")]
   pub(super) attr_ref_observer: Option<Box<dyn AttrRefObserver>>,
@@ -35,6 +37,7 @@ impl<'arena> Parser<'arena> {
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
+      cell_src: None,
       include_resolver: None,
       lexer,
       #[cfg(feature = "attr_ref_observation")]
@@ -84,6 +87,10 @@ impl<'arena> Parser<'arena> {
     cell_parser.lexer.adjust_offset(loc.start);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.ctx.max_include_depth = self.remaining_include_depth();
+    cell_parser.cell_src = Some(self.doc_loc(SourceLocation {
+      end: self.lexer.source_end(loc.include_depth),
+      ..loc
+    }));
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
 
@@ -95,6 +102,20 @@ impl<'arena> Parser<'arena> {
     cell_parser
   }
 
+  /// where the document holds what is at `loc` of the source being parsed, which can be a cell's
+  pub(crate) fn doc_loc(&self, loc: SourceLocation) -> SourceLocation {
+    match self.cell_src {
+      None => loc,
+      Some(cell) if loc.include_depth == 0 => SourceLocation {
+        start: loc.start.min(cell.end),
+        end: loc.end.min(cell.end),
+        ..cell
+      },
+      // included by the cell
+      Some(cell) => SourceLocation { end: cell.start, ..cell },
+    }
+  }
+
   pub(crate) fn loc(&self) -> SourceLocation {
     self
       .peeked_lines
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index fe79c32..8bbbddb 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -4,8 +4,12 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn insert_anchor(
     &mut self,
     id: &SourceString<'arena>,
-    anchor: Anchor<'arena>,
+    mut anchor: Anchor<'arena>,
   ) -> Result<()> {
+    anchor.source_idx = self.doc_loc(id.loc).include_depth;
+    if id.loc.include_depth == 0 {
+      anchor.source_loc = anchor.source_loc.map(|loc| self.doc_loc(loc));
+    }
     self.ctx.anchor_ids.borrow_mut().insert(id.src.clone());
     let mut anchors = self.document.anchors.borrow_mut();
     if anchors
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 32a2bfa..4d072f4 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -131,6 +131,7 @@ impl<'arena> Parser<'arena> {
           .document
           .meta
           .included_files
+          .borrow_mut()
           .insert(directive.target.as_str().to_string());
         Ok(DirectiveAction::ReadNextLine)
       }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index d0c5352..a32939f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -934,6 +934,7 @@ impl<'arena> Parser<'arena> {
       ref_id.drain(..1);
       ref_loc.start += 1;
     }
+    let ref_loc = self.doc_loc(ref_loc);
     self.ctx.xrefs.borrow_mut().insert(ref_id, ref_loc);
   }
 
-- 
2.43.0


From 98b75fa7d6bcbb3a6fd79bccc9dc22575f313d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 56/99] fix: a reference into a file included in parts is valid

---
 parser/src/tasks/diagnose_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index b28b6b8..1689e61 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -25,7 +25,9 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if idx.is_some_and(|idx| idx != anchor.source_idx) {
+      // NB: a file included more than once has a source for each time
+      let file = |idx| self.lexer.source_file_at(idx);
+      if idx.is_some_and(|idx| file(idx) != file(anchor.source_idx)) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
-- 
2.43.0


From 638adf80d18f52770914714dd957c6f0f898a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 57/99] fix: backslashes at the end of a line don't panic

---
 parser/src/tasks/parse_inlines/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index a32939f..edefc80 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -832,6 +832,10 @@ impl<'arena> Parser<'arena> {
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
+              // nothing to escape
+              Some((Backslash, _)) if line.iter().all(|t| t.kind(Backslash)) => {
+                acc.push_text_token(&token)
+              }
               Some((OpenParens, len))
                 if len > 2 && index_term::terminates(&line, lines).is_some() =>
               {
-- 
2.43.0


From 4b6743ebe0d70486f1bb1bbaef9d618a48a10b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 58/99] fix: an attribute entry amid a table is text

---
 parser/src/line.rs                    | 10 ++++++++++
 parser/src/parser.rs                  |  8 ++++++++
 parser/src/tasks/table/parse_table.rs |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 74abe0c..676ef22 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -304,6 +304,16 @@ impl<'arena> Line<'arena> {
     self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter_kind().is_some()
   }
 
+  pub fn is_table_delimiter(&self) -> bool {
+    self.num_tokens() == 2
+      && matches!(
+        self.current_token().map(|token| token.kind),
+        Some(Pipe | Colon | Bang | Comma)
+      )
+      && self.nth_token(1).kind(EqualSigns)
+      && self.nth_token(1).unwrap().len() > 2
+  }
+
   pub fn is_comment_block_delimiter(&self) -> bool {
     self.is_delimiter_kind(DelimiterKind::Comment)
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d85aa61..42fbd3c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -14,6 +14,8 @@ pub struct Parser<'arena> {
   pub(super) strict: bool, // todo: naming...
   /// where the document holds the text being parsed, up to its source's end, if it is a cell's
   pub(super) cell_src: Option<SourceLocation>,
+  /// an attr entry amid a table is text
+  pub(super) within_table: bool,
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
   #[cfg(feature = "attr_ref_observation")]
   pub(super) attr_ref_observer: Option<Box<dyn AttrRefObserver>>,
@@ -38,6 +40,7 @@ impl<'arena> Parser<'arena> {
       errors: RefCell::new(Vec::new()),
       strict: true,
       cell_src: None,
+      within_table: false,
       include_resolver: None,
       lexer,
       #[cfg(feature = "attr_ref_observation")]
@@ -150,6 +153,7 @@ impl<'arena> Parser<'arena> {
         } else if token.kind == Colon
           && self.ctx.subs.attr_refs()
           && !self.ctx.within_block_comment()
+          && !self.within_table
         {
           self.try_parse_attr_def(&mut token)?;
         }
@@ -190,6 +194,7 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
+    self.within_table = false;
     while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
@@ -205,6 +210,9 @@ impl<'arena> Parser<'arena> {
         }
       }
       self.ctx.track_verbatim_delimiter(&line);
+      if self.ctx.verbatim_delimiter.is_none() && line.is_table_delimiter() {
+        self.within_table = !self.within_table;
+      }
       let ends_with_attr_decl = line.is_attr_decl();
       lines.push(line);
       if self.lexer.at_newline() {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index c8858f3..948f9c5 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -394,6 +394,7 @@ impl<'arena> Parser<'arena> {
         end += 1;
       }
     }
+    self.within_table = true;
     while let Some(next_line) = self.read_line()? {
       if next_line.is_comment() {
         continue;
@@ -404,6 +405,7 @@ impl<'arena> Parser<'arena> {
       }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
+        self.within_table = false;
         return Ok((TableTokens::new(tokens), next_line.last_loc().unwrap()));
       }
       if let Some(loc) = next_line.last_loc() {
@@ -411,6 +413,7 @@ impl<'arena> Parser<'arena> {
       }
       next_line.drain_into(&mut tokens);
     }
+    self.within_table = false;
     self.err_line("Table never closed, started here", start_delim)?;
     Ok((TableTokens::new(tokens), self.lexer.loc()))
   }
-- 
2.43.0


From 722de2e80c42801d82c1602e859a3493053cbf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 59/99] fix: spans, widths and separators of a table as they
 are asked for

---
 ast/src/col_widths.rs                      |  4 +--
 ast/src/table.rs                           |  4 +--
 parser/src/tasks/table/parse_table_spec.rs | 42 +++++++++-------------
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..c216d06 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.unwrap_or(0) + *n as u32)
         }
         ColWidth::Auto => num_autowidth += 1,
       }
diff --git a/ast/src/table.rs b/ast/src/table.rs
index d5cfdb7..2663096 100644
--- a/ast/src/table.rs
+++ b/ast/src/table.rs
@@ -134,8 +134,8 @@ impl<'arena> Cell<'arena> {
   pub fn new(content: CellContent<'arena>, cell_spec: CellSpec, col_spec: Option<ColSpec>) -> Self {
     Self {
       content,
-      col_span: cell_spec.col_span.unwrap_or(1),
-      row_span: cell_spec.row_span.unwrap_or(1),
+      col_span: cell_spec.col_span.unwrap_or(1).max(1),
+      row_span: cell_spec.row_span.unwrap_or(1).max(1),
       h_align: cell_spec.h_align.unwrap_or(
         col_spec
           .as_ref()
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 6a106b8..98132b1 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -44,9 +44,9 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
     if width == "~" {
       spec.width = ColWidth::Auto;
     } else if let Some(digits) = width.strip_suffix('%') {
-      spec.width = ColWidth::Percentage(digits.parse().unwrap_or(1));
+      spec.width = ColWidth::Percentage(digits.parse().unwrap_or(1).max(1));
     } else {
-      spec.width = ColWidth::Proportional(width.parse().unwrap_or(1));
+      spec.width = ColWidth::Proportional(width.parse().unwrap_or(1).max(1));
     }
   }
 
@@ -147,7 +147,7 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 {
+    if cursor == 0 && !style_within_word {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
@@ -155,30 +155,20 @@ impl<'arena> Parser<'arena> {
     let mut buf = [0; 4];
     let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
 
-    match (style_within_word, cursor_token.lexeme.as_bytes()) {
-      (false, bytes) if bytes == sep_bytes => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
-        let joined = tokens.nth(cursor as usize).unwrap();
-        Some(CellStart {
-          spec,
-          drop_tokens: cursor,
-          drop_bytes: 1 + sep_bytes.len() as u32,
-          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
-        })
-      }
-      _ => None,
+    // the separator can be joined to the style before it, and to the text after it
+    let before = if style_within_word { 1 } else { 0 };
+    let rest = &cursor_token.lexeme.as_bytes()[before..];
+    if cursor_token.attr_replacement || !rest.starts_with(sep_bytes) {
+      return None;
     }
+    let drop = (before + sep_bytes.len()) as u32;
+    let whole = rest.len() == sep_bytes.len();
+    Some(CellStart {
+      spec,
+      drop_tokens: if whole { cursor + 1 } else { cursor },
+      drop_bytes: if whole { 0 } else { drop },
+      resuming: cursor_token.loc.start + drop,
+    })
   }
 }
 
-- 
2.43.0


From c8ca8bb4a9f51dc49860ab78572d37db689f3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 60/99] fix: the cells of a table fill its columns

---
 parser/src/tasks/table/context.rs         |  39 ++++-
 parser/src/tasks/table/mod.rs             |  65 +++++----
 parser/src/tasks/table/parse_csv_table.rs |   7 +-
 parser/src/tasks/table/parse_dsv_table.rs |  49 +++----
 parser/src/tasks/table/parse_psv_table.rs | 167 +++++++++++-----------
 parser/src/tasks/table/parse_table.rs     |   4 +-
 6 files changed, 182 insertions(+), 149 deletions(-)

diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index a32afeb..490aaa7 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -1,4 +1,5 @@
 use std::collections::HashSet;
+use std::ops::Range;
 
 use super::DataFormat;
 use crate::internal::*;
@@ -20,7 +21,7 @@ pub struct TableContext<'arena> {
   pub effective_row_idx: usize,
   pub dsv_last_consumed: DsvLastConsumed,
   pub table: Table<'arena>,
-  pub spilled_cells: BumpVec<'arena, Cell<'arena>>,
+  pub spilled_cells: BumpVec<'arena, PsvCell<'arena>>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -49,6 +50,15 @@ pub struct ParseCellData<'arena> {
   pub col_spec: Option<ColSpec>,
 }
 
+/// a cell as written, which might not be placed yet
+#[derive(Debug, Clone)]
+pub struct PsvCell<'arena> {
+  pub spec: CellSpec,
+  pub spec_loc: SourceLocation,
+  pub tokens: Line<'arena>,
+  pub loc: Range<u32>,
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum DsvLastConsumed {
   Delimiter,
@@ -74,12 +84,31 @@ impl TableContext<'_> {
     }
   }
 
-  pub fn row_phantom_cells(&self) -> usize {
+  /// whether a cell above reaches down to this column of the row
+  pub fn is_phantom(&self, col: usize) -> bool {
     self
       .phantom_cells
-      .iter()
-      .filter(|(row, _)| *row == self.effective_row_idx)
-      .count()
+      .contains(&(self.effective_row_idx, col))
+  }
+
+  /// the first column of the row not taken, from `col` on
+  pub fn free_col(&self, mut col: usize) -> usize {
+    while col < self.num_cols && self.is_phantom(col) {
+      col += 1;
+    }
+    col
+  }
+
+  /// how many of the columns wanted are free, from `col` on
+  pub fn room_at(&self, col: usize, wanted: u8) -> u8 {
+    let mut room = 0;
+    while room < wanted
+      && col + (room as usize) < self.num_cols
+      && !self.is_phantom(col + room as usize)
+    {
+      room += 1;
+    }
+    room
   }
 
   pub fn effective_row_cols(&self) -> usize {
diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..959d02d 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -33,13 +33,6 @@ impl DataFormat {
     }
   }
 
-  pub const fn embeddable_separator(&self) -> Option<char> {
-    match self.separator() {
-      ':' | ';' | '|' | ',' => None,
-      sep => Some(sep),
-    }
-  }
-
   pub const fn separator_token_kind(&self) -> Option<TokenKind> {
     match self.separator() {
       ':' => Some(TokenKind::Colon),
@@ -97,32 +90,54 @@ impl<'arena> TableTokens<'arena> {
     self.0.drop_leading_bytes(n);
   }
 
+  /// the current token, up to a separator within it
   pub fn consume_splitting(&mut self, embeddable_separator: Option<char>) -> Option<Token<'arena>> {
     let Some(sep) = embeddable_separator else {
       return self.consume_current();
     };
-    if !self.current().kind(TokenKind::Word) {
+
+    // NB: a separator at the start is not one here, it was escaped or quoted, or is from an attribute
+    let token = self.current()?;
+    let next_sep = token.lexeme.char_indices().skip(1).find(|(_, c)| *c == sep);
+    let Some((idx, _)) = next_sep.filter(|_| !token.attr_replacement) else {
       return self.consume_current();
-    }
+    };
+    let before = &token.lexeme[..idx];
+    let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
+    let loc = token.loc;
+    let before_len = before.len() as u32;
+    self.drop_leading_bytes(before_len);
+    Some(Token {
+      kind: TokenKind::Word,
+      lexeme,
+      loc: SourceLocation::new(loc.start, loc.start + before_len, loc.include_depth),
+      attr_replacement: false,
+    })
+  }
 
-    let token = self.current().unwrap();
-    if token.lexeme.contains(sep) {
-      let (before, _) = token.lexeme.split_once(sep).unwrap();
-      // NB: caller must check that lexeme doesn't START with sep
-      debug_assert!(!before.is_empty());
-      let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
-      let loc = token.loc;
-      let before_len = before.len() as u32;
-      self.drop_leading_bytes(before_len);
-      Some(Token {
-        kind: TokenKind::Word,
-        lexeme,
-        loc: SourceLocation::new(loc.start, loc.start + before_len, loc.include_depth),
-        attr_replacement: false,
-      })
+  /// consume a separator, leaving the rest of the token it starts
+  pub fn consume_sep(&mut self, sep: char) -> bool {
+    if !self.starts_with_sep(sep) {
+      return false;
+    }
+    let sep_len = sep.len_utf8();
+    if self.current().unwrap().lexeme.len() == sep_len {
+      self.consume_current();
     } else {
-      self.consume_current()
+      self.drop_leading_bytes(sep_len as u32);
     }
+    true
+  }
+
+  pub fn starts_with_sep(&self, sep: char) -> bool {
+    self
+      .current()
+      .is_some_and(|token| !token.attr_replacement && token.lexeme.starts_with(sep))
+  }
+
+  pub fn at_quote(&self) -> bool {
+    let token = self.current();
+    token.kind(TokenKind::DoubleQuote) && !token.is_attr_replacement()
   }
 
   pub fn is_empty(&self) -> bool {
diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index fe539d1..6efa2b9 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -14,7 +14,7 @@ impl<'arena> Parser<'arena> {
     let mut end = start;
 
     let mut quote = {
-      if tokens.current().kind(TokenKind::DoubleQuote) {
+      if tokens.at_quote() {
         let quote = tokens.consume_current().unwrap();
         start = quote.loc.end;
         while tokens.current().is_whitespaceish() {
@@ -48,16 +48,17 @@ impl<'arena> Parser<'arena> {
 
       end = token.loc.end;
       match token.kind {
+        _ if token.attr_replacement => cell_tokens.push(token),
         DoubleQuote if quote.is_none() => {
           self.err_at(
             "Double quote not allowed here, entire field must be quoted",
             token.loc,
           )?;
         }
-        DoubleQuote if quote.is_some() && tokens.current().not_kind(DoubleQuote) => {
+        DoubleQuote if quote.is_some() && !tokens.at_quote() => {
           quote = None;
         }
-        DoubleQuote if quote.is_some() && tokens.current().kind(DoubleQuote) => {
+        DoubleQuote if quote.is_some() && tokens.at_quote() => {
           cell_tokens.push(tokens.consume_current().unwrap());
         }
         _ => {
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index b8ce8cc..dc06e31 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -49,18 +49,21 @@ impl<'arena> Parser<'arena> {
     }
     let mut start = tokens.current().unwrap().loc.start;
 
-    let mut trimmed_newline = false;
+    let mut trimmed_newlines = 0;
     while tokens.current().is_whitespaceish() {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
       if trimmed.kind(TokenKind::Newline) {
-        trimmed_newline = true;
+        trimmed_newlines += 1;
         ctx.counting_cols = false;
       }
     }
 
     // delimiter followed by newline is an empty cell
-    if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newline {
+    if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newlines > 0 {
+      if ctx.header_row.is_unknown() && trimmed_newlines > 1 {
+        ctx.header_row = HeaderRow::FoundImplicit;
+      }
       let spec = CellSpec::default();
       return self
         .finish_cell(spec, Line::empty(self.bump), col_index, ctx, start..start)
@@ -106,11 +109,15 @@ impl<'arena> Parser<'arena> {
         ctx.counting_cols = false
       }
       end = token.loc.end;
-      if !token.kind(TokenKind::Backslash) {
-        cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      // NB: only a separator can be escaped
+      if token.kind(TokenKind::Backslash)
+        && tokens.starts_with_sep(ctx.cell_separator)
+        && let Some(next) = tokens.consume_splitting(ctx.embeddable_cell_separator)
+      {
         end = next.loc.end;
         cell_tokens.push(next);
+      } else {
+        cell_tokens.push(token);
       }
     }
   }
@@ -127,31 +134,13 @@ impl<'arena> Parser<'arena> {
       return true;
     }
 
-    ctx.dsv_last_consumed = DsvLastConsumed::Other;
-    if let Some(tokenkind) = ctx.cell_separator_tokenkind {
-      return if tokens.current().kind(tokenkind) {
-        ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
-        tokens.consume_current();
-        true
-      } else {
-        false
-      };
-    }
-
-    let sep_len = ctx.cell_separator.len_utf8();
-    let token = tokens.current_mut().unwrap();
-    if token.lexeme.starts_with(ctx.cell_separator) {
-      ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
-      if token.lexeme.len() == sep_len {
-        tokens.consume_current();
-        true
-      } else {
-        tokens.drop_leading_bytes(sep_len as u32);
-        true
-      }
+    let consumed = tokens.consume_sep(ctx.cell_separator);
+    ctx.dsv_last_consumed = if consumed {
+      DsvLastConsumed::Delimiter
     } else {
-      false
-    }
+      DsvLastConsumed::Other
+    };
+    consumed
   }
 }
 
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 2c67be5..370140c 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -8,24 +8,21 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
     let mut cells = bvec![in self.bump];
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, cells.len());
-          cells.push(cell.clone());
-        }
+    while let Some(data) = self.next_psv_cell(tokens, ctx)? {
+      if let Some((cell, _)) =
+        self.finish_cell(data.spec, data.tokens, cells.len(), ctx, data.loc)?
+      {
+        ctx.add_phantom_cells(&cell, ctx.num_cols);
+        ctx.num_cols += cell.col_span as usize;
+        cells.push(cell);
       }
-      ctx.add_phantom_cells(&cell, cells.len());
-      cells.push(cell);
-      if !ctx.counting_cols {
+      if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
         break;
       }
     }
     while tokens.current().kind(TokenKind::Newline) {
       tokens.consume_current();
     }
-
-    ctx.num_cols = cells.iter().map(|c| c.col_span as usize).sum();
     self.finish_implicit_header_row(cells, ctx)
   }
 
@@ -35,41 +32,60 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<Option<Row<'arena>>> {
     let mut cells = bvec![in self.bump];
-    std::mem::swap(&mut cells, &mut ctx.spilled_cells);
-    let mut num_effective_cells = ctx.row_phantom_cells();
-
-    // check if we need to distrubute spilled cells from last row
-    let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
-    ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room && ctx.num_cols > 0 {
-      ctx.effective_row_idx += 1;
-      return Ok(Some(Row::new(cells)));
+    let mut col = ctx.free_col(0);
+    // all of the row can be taken by cells above
+    let mut more = col < ctx.num_cols || !tokens.is_empty() || !ctx.spilled_cells.is_empty();
+    while col < ctx.num_cols {
+      let Some(mut data) = self.next_psv_cell(tokens, ctx)? else {
+        more = !cells.is_empty();
+        break;
+      };
+      let room = ctx.room_at(col, data.spec.col_span.unwrap_or(1));
+      if data.spec.col_span.is_some_and(|span| span > room) {
+        let msg = format!("Cell column span exceeds columns left in row ({room})");
+        self.err_at(msg, data.spec_loc)?;
+        data.spec.col_span = Some(room);
+      }
+      if let Some((cell, _)) =
+        self.finish_cell(data.spec, data.tokens, cells.len(), ctx, data.loc)?
+      {
+        ctx.add_phantom_cells(&cell, col);
+        col = ctx.free_col(col + cell.col_span as usize);
+        cells.push(cell);
+      }
     }
+    ctx.effective_row_idx += 1;
+    Ok(more.then(|| Row::new(cells)))
+  }
 
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, num_effective_cells);
-          num_effective_cells += cell.col_span as usize;
-          if num_effective_cells < ctx.num_cols {
-            cells.push(cell.clone());
-          } else {
-            ctx.spilled_cells.push(cell.clone());
-          }
-        }
+  fn next_psv_cell(
+    &mut self,
+    tokens: &mut TableTokens<'arena>,
+    ctx: &mut TableContext<'arena>,
+  ) -> Result<Option<PsvCell<'arena>>> {
+    if let Some(repeated) = ctx.spilled_cells.pop() {
+      return Ok(Some(repeated));
+    }
+    loop {
+      let counting_cols = ctx.counting_cols;
+      let Some(cell) = self.parse_psv_table_cell(tokens, ctx)? else {
+        return Ok(None);
+      };
+      let span = cell.spec.col_span.unwrap_or(1);
+      if !counting_cols && span as usize > ctx.num_cols {
+        self.err_at(
+          format!(
+            "Cell column span ({span}) exceeds number of columns ({})",
+            ctx.num_cols
+          ),
+          cell.spec_loc,
+        )?;
+        continue;
       }
-      ctx.add_phantom_cells(&cell, num_effective_cells);
-      num_effective_cells += cell.col_span as usize;
-      cells.push(cell);
-      if num_effective_cells >= ctx.num_cols {
-        break;
+      for _ in 1..cell.spec.duplication.unwrap_or(1) {
+        ctx.spilled_cells.push(cell.clone());
       }
-    }
-    if cells.is_empty() {
-      Ok(None)
-    } else {
-      ctx.effective_row_idx += 1;
-      Ok(Some(Row::new(cells)))
+      return Ok(Some(cell));
     }
   }
 
@@ -77,58 +93,38 @@ impl<'arena> Parser<'arena> {
     &mut self,
     tokens: &mut TableTokens<'arena>,
     ctx: &mut TableContext<'arena>,
-    col_index: usize,
-  ) -> Result<Option<(Cell<'arena>, u8)>> {
+  ) -> Result<Option<PsvCell<'arena>>> {
     if tokens.is_empty() {
       return Ok(None);
     }
 
+    let sep = ctx.cell_separator;
     let spec_loc = tokens.current().unwrap().loc;
-    let (spec, mut start) = match self.consume_cell_start(tokens, ctx.format.separator()) {
+    let (spec, start) = match self.consume_cell_start(tokens, sep) {
       Some((spec, start)) => (spec, start),
       None => {
-        let sep = ctx.format.separator();
         self.err_token(format!("Expected cell separator `{sep}`"), tokens.nth(0))?;
         (CellSpec::default(), tokens.current().unwrap().loc.start)
       }
     };
-
-    let mut drop_invalid_cell = false;
-    if !ctx.counting_cols && spec.col_span.unwrap_or(0) > ctx.num_cols as u8 {
-      self.err_at(
-        format!(
-          "Cell column span ({}) exceeds number of columns ({})",
-          spec.col_span.unwrap(),
-          ctx.num_cols
-        ),
-        spec_loc.setting_end(start - 1),
-      )?;
-      drop_invalid_cell = true;
-    }
-
-    let mut end = start;
-    let mut cell_tokens = Line::empty(self.bump);
+    let mut cell = PsvCell {
+      spec,
+      spec_loc: spec_loc.setting_end(start.saturating_sub(1).max(spec_loc.start)),
+      tokens: Line::empty(self.bump),
+      loc: start..start,
+    };
 
     // trim leading whitespace
+    let mut after_space = false;
     while tokens.current().kind(TokenKind::Whitespace) {
-      let trimmed = tokens.consume_current().unwrap();
-      start = trimmed.loc.end;
+      cell.loc.start = tokens.consume_current().unwrap().loc.end;
+      after_space = true;
     }
 
-    loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator) {
-        if drop_invalid_cell {
-          return self.parse_psv_table_cell(tokens, ctx, col_index);
-        } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
-        }
-      }
-      let Some(token) = tokens.consume_splitting(ctx.embeddable_cell_separator) else {
-        if drop_invalid_cell {
-          return self.parse_psv_table_cell(tokens, ctx, col_index);
-        } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
-        }
+    // NB: only whitespace separates the spec of the next cell from the text of this one
+    while !tokens.starts_with_sep(sep) && !(after_space && self.starts_psv_cell(tokens, sep)) {
+      let Some(mut token) = tokens.consume_splitting(ctx.embeddable_cell_separator) else {
+        break;
       };
 
       if ctx.counting_cols && token.kind(TokenKind::Newline) {
@@ -138,15 +134,18 @@ impl<'arena> Parser<'arena> {
         ctx.counting_cols = false;
       }
 
-      end = token.loc.end;
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
-      if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
-        cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
-        end = next.loc.end;
-        cell_tokens.push(next);
+      if token.kind(TokenKind::Backslash)
+        && tokens.starts_with_sep(sep)
+        && let Some(escaped) = tokens.consume_splitting(ctx.embeddable_cell_separator)
+      {
+        token = escaped;
       }
+      cell.loc.end = token.loc.end;
+      after_space = token.is_whitespaceish();
+      cell.tokens.push(token);
     }
+    Ok(Some(cell))
   }
 }
 
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 948f9c5..a102cb4 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -26,7 +26,7 @@ impl<'arena> Parser<'arena> {
 
     let mut format = match (meta.attrs.named("format"), delim_ch) {
       (Some("psv"), b'!') if self.ctx.parsing_adoc_cell() => DataFormat::Prefix('!'),
-      (Some("psv"), _) => DataFormat::Csv('|'),
+      (Some("psv"), _) => DataFormat::Prefix('|'),
       (Some("csv"), _) => DataFormat::Csv(','),
       (Some("tsv"), _) => DataFormat::Csv('\t'),
       (Some("dsv"), _) => DataFormat::Delimited(':'),
@@ -60,7 +60,7 @@ impl<'arena> Parser<'arena> {
       delim_ch,
       format,
       cell_separator: format.separator(),
-      embeddable_cell_separator: format.embeddable_separator(),
+      embeddable_cell_separator: Some(format.separator()),
       cell_separator_tokenkind: format.separator_token_kind(),
       num_cols: col_specs.len(),
       counting_cols: col_specs.is_empty(),
-- 
2.43.0


From e5b65ddf7894627e8ebf48558ece2d74be6031c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 61/99] fix: a table whose first cells are dropped ends

---
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 370140c..f776d39 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -16,7 +16,7 @@ impl<'arena> Parser<'arena> {
         ctx.num_cols += cell.col_span as usize;
         cells.push(cell);
       }
-      if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
+      if !ctx.counting_cols && ctx.spilled_cells.is_empty() && ctx.num_cols > 0 {
         break;
       }
     }
-- 
2.43.0


From 2f5dcd897d27982f0df6a1ddbc142bc9f2052c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 62/99] fix: verbatim text gets no substitutions but those
 asked for

Passthroughs, cross references, anchors and hard line breaks were taken from
listings, literal and pass blocks, backslashes and comment lines were removed,
and character references weren't escaped.
---
 parser/src/line.rs                            | 23 +++++++++++---
 .../src/tasks/parse_inlines/inline_utils.rs   | 15 +++++++++
 parser/src/tasks/parse_inlines/mod.rs         | 31 ++++++++++++++-----
 3 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 676ef22..5c7789b 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -47,7 +47,9 @@ impl<'arena> Line<'arena> {
     } else if self.pass_macro || self.pass_pluses > 1 {
       true
     } else {
-      let last = self.last().unwrap();
+      let Some(last) = self.last() else {
+        return false;
+      };
       if last.is_kind_len(Plus, 1) && self.len() > 1 {
         // NB: line ending ` +` is a hardbreak, cannot be pass
         !self.nth_token(self.len() - 2).is_whitespaceish()
@@ -416,6 +418,16 @@ impl<'arena> Line<'arena> {
     self.current_token().map(predicate).unwrap_or(false)
   }
 
+  /// the notice left for an include directive that failed, escaped already
+  pub fn is_unresolved_include(&self) -> bool {
+    const NOTICE: [&str; 8] = ["+", "+", "+", "Unresolved", " ", "directive", " ", "in"];
+    self.num_tokens() > NOTICE.len()
+      && self
+        .iter()
+        .zip(NOTICE)
+        .all(|(token, lexeme)| token.lexeme == lexeme)
+  }
+
   pub fn is_comment(&self) -> bool {
     self.is_fully_unconsumed() && self.current_satisfies(Len(2, ForwardSlashes))
   }
@@ -465,10 +477,11 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_valid_callout_nums(&self) -> bool {
-    for token in self.iter() {
-      if token.kind(Whitespace) || token.kind(CalloutNumber) {
-        continue;
-      } else {
+    let mut tokens = self.iter().peekable();
+    while let Some(token) = tokens.next() {
+      let escapes_next =
+        token.kind(Backslash) && tokens.peek().is_some_and(|t| t.kind(CalloutNumber));
+      if !token.kind(Whitespace) && !token.kind(CalloutNumber) && !escapes_next {
         return false;
       }
     }
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 07b5134..1ce51f9 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -235,6 +235,21 @@ impl Substitutions {
     subs
   }
 
+  /// whether a token of this kind could be substituted, if not for a backslash preceding it
+  pub const fn escapable(&self, kind: TokenKind) -> bool {
+    match kind {
+      TokenKind::Directive => true,
+      TokenKind::CalloutNumber => self.callouts(),
+      TokenKind::AttrRef => self.attr_refs(),
+      _ => {
+        self.inline_formatting()
+          || self.char_replacement()
+          || self.macros()
+          || self.post_replacement()
+      }
+    }
+  }
+
   pub const fn from_pass_plus_len(len: usize) -> Self {
     if len == 3 {
       Substitutions::none()
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index edefc80..c1403b4 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -38,7 +38,7 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs);
       }
 
-      if line.is_comment() && !subs.callouts() {
+      if line.is_comment() && !subs.callouts() && self.ctx.can_nest_blocks {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
@@ -65,7 +65,7 @@ impl<'arena> Parser<'arena> {
           return self.finish_inlines(acc, inline_attrs);
         }
 
-        if line.may_contain_inline_pass() {
+        if (subs.macros() || line.is_unresolved_include()) && line.may_contain_inline_pass() {
           self.replace_inline_pass(&mut line, lines)?;
           break;
         }
@@ -444,7 +444,7 @@ impl<'arena> Parser<'arena> {
             acc.push_unused_callout_number(&token);
           }
 
-          LessThan if line.continues_xref_shorthand() => {
+          LessThan if subs.macros() && line.continues_xref_shorthand() => {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
@@ -567,7 +567,8 @@ impl<'arena> Parser<'arena> {
           }
 
           OpenBracket
-            if line.starts_with_seq(&[Kind(OpenBracket); 2])
+            if subs.macros()
+              && line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
               && line.contains_seq(&[Kind(CloseBracket); 3]) =>
           {
@@ -591,7 +592,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          OpenBracket if line.continues_inline_anchor() => {
+          OpenBracket if subs.macros() && line.continues_inline_anchor() => {
             let second_bracket = line.consume_current().unwrap();
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
@@ -767,7 +768,10 @@ impl<'arena> Parser<'arena> {
           }
 
           // already encoded entities, eg: &#8212;
-          Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+          Ampersand
+            if subs.char_replacement()
+              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) =>
+          {
             // keep the reference whole, its hash can't end a span
             acc.push_text_token(&token);
             for _ in 0..3 {
@@ -776,6 +780,14 @@ impl<'arena> Parser<'arena> {
             }
           }
 
+          Entity if subs.special_chars() && !subs.char_replacement() => {
+            acc.push_node(
+              SpecialChar(SpecialCharKind::Ampersand),
+              token.loc.clamp_start().incr_end(),
+            );
+            acc.text.push_str(&token.lexeme[1..]);
+          }
+
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
             acc.push_node(
               SpecialChar(match token.kind {
@@ -805,7 +817,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
@@ -833,6 +846,10 @@ impl<'arena> Parser<'arena> {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
               // nothing to escape
+              Some((kind, _)) if !subs.escapable(kind) => acc.push_text_token(&token),
+              Some((CalloutNumber, _)) if !line.continues_valid_callout_nums() => {
+                acc.push_text_token(&token)
+              }
               Some((Backslash, _)) if line.iter().all(|t| t.kind(Backslash)) => {
                 acc.push_text_token(&token)
               }
-- 
2.43.0


From 936332844bcf615197db3b766f5ac38c77b68fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 63/99] fix: references to attributes in verbatim text are left
 as they are

Those to a missing attribute were dropped, and those with a pass macro as
value were printed with the value behind.
---
 parser/src/tasks/attr_refs.rs         | 31 +++++++++++++++++++++++++++
 parser/src/tasks/parse_inlines/mod.rs | 17 +++++++++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 992c539..f73fe8a 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -85,6 +85,11 @@ impl<'arena> Parser<'arena> {
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
             observer.attr_ref_missing(token.attr_name(), token.loc);
           }
+          if self.ctx.verbatim_delimiter.is_some() {
+            // only known later on whether the block has its references resolved
+            line.push(token);
+            return Ok(());
+          }
           match self.document.meta.str("attribute-missing") {
             Some("drop") => {}
             Some("drop-line") => *drop_line = true,
@@ -104,6 +109,32 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  fn is_missing_attr(&self, name: &str) -> bool {
+    !matches!(self.document.meta.get(name), Some(AttrValue::String(_)))
+  }
+
+  /// whether a reference from a verbatim block is left as it is, for lack of a value
+  pub(crate) fn keeps_missing_attr_ref(&self, token: &Token) -> Result<bool> {
+    if !self.is_missing_attr(&token.lowercase_attr_name()) {
+      return Ok(false);
+    }
+    match self.document.meta.str("attribute-missing") {
+      Some("drop" | "drop-line") => Ok(false),
+      Some("warn") => {
+        self.err_token_full("Skipping reference to missing attribute", token)?;
+        Ok(true)
+      }
+      _ => Ok(true),
+    }
+  }
+
+  pub(crate) fn drops_missing_attr_ref_line(&self, line: &Line) -> bool {
+    self.document.meta.str("attribute-missing") == Some("drop-line")
+      && line.iter().any(|token| {
+        token.kind(TokenKind::AttrRef) && self.is_missing_attr(&token.lowercase_attr_name())
+      })
+  }
+
   pub(crate) fn insert_job_attr(&mut self, key: &str, value: impl Into<AttrValue>) {
     self
       .document
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c1403b4..970aff6 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -38,6 +38,13 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs);
       }
 
+      if subs.attr_refs() && self.drops_missing_attr_ref_line(&line) {
+        if lines.is_empty() {
+          acc.inlines.discard_trailing_newline();
+        }
+        continue;
+      }
+
       if line.is_comment() && !subs.callouts() && self.ctx.can_nest_blocks {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
@@ -372,7 +379,7 @@ impl<'arena> Parser<'arena> {
             // probably because we're inside a pass macro, so
             // discard the resolved tokens and push the raw attr
             while let Some(peek) = line.current_token() {
-              if peek.loc == token.loc {
+              if peek.attr_replacement {
                 line.discard(1);
               } else {
                 break;
@@ -840,7 +847,13 @@ impl<'arena> Parser<'arena> {
 
           Discard => acc.text.loc = token.loc.clamp_end(),
 
-          AttrRef => {}
+          // its replacement follows, if it has one
+          AttrRef => {
+            if self.keeps_missing_attr_ref(&token)? {
+              self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
+              acc.push_text_token(&token);
+            }
+          }
 
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
-- 
2.43.0


From 347a2de7d7c0515493f5c911f66429b3ee684f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 64/99] fix: verbatim text keeps its line breaks

---
 backend-html5s/src/html5s.rs            | 12 ++++++++++--
 dr-html-backend/src/asciidoctor_html.rs | 16 +++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 3f8a970..82a3a89 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -45,6 +45,10 @@ impl Backend for Html5s {
     }
     utils::set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    if document.meta.is_true("hardbreaks-option") {
+      self.default_newlines = Newlines::JoinWithBreak;
+      self.newlines = Newlines::JoinWithBreak;
+    }
 
     if !self.standalone() {
       return;
@@ -300,8 +304,12 @@ impl Backend for Html5s {
     if block.context == BlockContext::BlockQuote {
       self.push_str("<p>");
     }
-    if block.meta.attrs.has_option("hardbreaks") {
-      self.newlines = Newlines::JoinWithBreak;
+    match block.context {
+      BlockContext::Listing | BlockContext::Literal | BlockContext::Passthrough => {
+        self.newlines = Newlines::Preserve;
+      }
+      _ if block.meta.attrs.has_option("hardbreaks") => self.newlines = Newlines::JoinWithBreak,
+      _ => {}
     }
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 7017c10..76e33a6 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -47,7 +47,8 @@ impl Backend for AsciidoctorHtml {
     set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
     if document.meta.is_true("hardbreaks-option") {
-      self.default_newlines = Newlines::JoinWithBreak
+      self.default_newlines = Newlines::JoinWithBreak;
+      self.newlines = Newlines::JoinWithBreak;
     }
 
     if !self.standalone() {
@@ -339,10 +340,15 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_simple_block_content(&mut self, block: &Block) {
-    if block.context == BlockContext::Verse {
-      self.newlines = Newlines::Preserve;
-    } else if block.meta.attrs.has_option("hardbreaks") {
-      self.newlines = Newlines::JoinWithBreak;
+    match block.context {
+      BlockContext::Verse | BlockContext::Listing | BlockContext::Literal => {
+        self.newlines = Newlines::Preserve;
+      }
+      BlockContext::Passthrough if block.meta.attrs.named("subs") != Some("normal") => {
+        self.newlines = Newlines::Preserve;
+      }
+      _ if block.meta.attrs.has_option("hardbreaks") => self.newlines = Newlines::JoinWithBreak,
+      _ => {}
     }
   }
 
-- 
2.43.0


From b13bc69c147431da92e4f7cf9480d329d3083e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 65/99] fix: an email address behind an attribute reference in
 verbatim text is kept

---
 parser/src/tasks/parse_inlines/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 970aff6..80b4647 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -378,14 +378,16 @@ impl<'arena> Parser<'arena> {
             // turns out we didn't need to resolve the attr ref
             // probably because we're inside a pass macro, so
             // discard the resolved tokens and push the raw attr
-            while let Some(peek) = line.current_token() {
-              if peek.attr_replacement {
-                line.discard(1);
-              } else {
-                break;
+            acc.push_text_token(&token);
+            while line.current_token().is_some_and(|t| t.attr_replacement) {
+              let mut replaced = line.consume_current().unwrap();
+              // what follows the ref can have been joined to its value as an email address
+              if replaced.kind(Email) && replaced.loc.end > token.loc.end {
+                replaced.loc.start = token.loc.end;
+                replaced.lexeme = self.string(self.lexer.str_from_loc(replaced.loc));
+                acc.push_text_token(&replaced);
               }
             }
-            acc.push_text_token(&token);
           }
 
           // an attr entry amid a paragraph or verbatim block is just text
-- 
2.43.0


From 8345b4b03300ee5e74d41bd86f6f3533865d814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 66/99] fix: what follows an anchor that isn't a block's is no
 longer dropped

---
 parser/src/line.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 5c7789b..6677b29 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -275,7 +275,8 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn is_block_anchor(&self) -> bool {
-    self.starts_with_seq(&[Kind(OpenBracket); 2])
+    self.is_fully_unconsumed()
+      && self.starts_with_seq(&[Kind(OpenBracket); 2])
       && self.num_tokens() > 4
       && !matches!(
         self.nth_token(2).unwrap().kind,
@@ -860,7 +861,7 @@ impl<'arena> Line<'arena> {
     }
     match self.current_token().map(|t| t.kind) {
       None | Some(Plus) => false,
-      Some(OpenBracket) => !self.is_block_attr_list(),
+      Some(OpenBracket) => !self.is_block_attr_list() && !self.is_block_anchor(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
   }
-- 
2.43.0


From 15936ccec006c6c950392cbdc932158a1407e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 67/99] fix: a passthrough can start with an email address

---
 parser/src/line.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 6677b29..a8f2c28 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -104,7 +104,19 @@ impl<'arena> Line<'arena> {
       }
     }
 
-    if idx == init_idx {
+    let mut end_idx = idx;
+    if !matches!(
+      self.tokens.get(end_idx).unwrap().kind,
+      Word | Digits | Dots | Underscore | Plus
+    ) {
+      end_idx += 1;
+    }
+    // a leading plus starts a passthrough
+    while self.tokens.get(end_idx).kind(Plus) {
+      end_idx += 1;
+    }
+
+    if idx == init_idx || end_idx > init_idx {
       if regx::EMAIL_RE.is_match(&token.lexeme) {
         token.kind = Email;
       } else {
@@ -115,13 +127,6 @@ impl<'arena> Line<'arena> {
       return;
     }
 
-    let mut end_idx = idx;
-    if !matches!(
-      self.tokens.get(end_idx).unwrap().kind,
-      Word | Digits | Dots | Underscore | Plus
-    ) {
-      end_idx += 1;
-    }
     let start = self.tokens.get(end_idx).unwrap().loc.start;
     let mut maybe_email = String::with_capacity((token.loc.end - start) as usize);
     for t in self.tokens.iter().skip(end_idx) {
-- 
2.43.0


From d927962747d648136ab3e96289e142e84316177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 68/99] fix: a reference to an attribute without a value is
 empty

---
 parser/src/tasks/attr_refs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index f73fe8a..9fd3613 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -80,6 +80,7 @@ impl<'arena> Parser<'arena> {
           }
           line.push(token);
         }
+        Some(AttrValue::Bool(true)) => line.push(token),
         _ => {
           #[cfg(feature = "attr_ref_observation")]
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
@@ -110,7 +111,10 @@ impl<'arena> Parser<'arena> {
   }
 
   fn is_missing_attr(&self, name: &str) -> bool {
-    !matches!(self.document.meta.get(name), Some(AttrValue::String(_)))
+    !matches!(
+      self.document.meta.get(name),
+      Some(AttrValue::String(_) | AttrValue::Bool(true))
+    )
   }
 
   /// whether a reference from a verbatim block is left as it is, for lack of a value
-- 
2.43.0


From fd4aab8c8cc264c2984d59254b2ab03d1adbe0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 69/99] fix: only a line of a paragraph is a comment

---
 parser/src/tasks/parse_inlines/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 80b4647..21c1a9e 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -45,7 +45,7 @@ impl<'arena> Parser<'arena> {
         continue;
       }
 
-      if line.is_comment() && !subs.callouts() && self.ctx.can_nest_blocks {
+      if self.drops_comment(&line) {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
@@ -1076,6 +1076,17 @@ impl<'arena> Parser<'arena> {
     )
   }
 
+  /// neither verbatim text nor what begins amid a line has comments
+  fn drops_comment(&self, line: &Line<'arena>) -> bool {
+    line.is_comment()
+      && !self.ctx.subs.callouts()
+      && self.ctx.can_nest_blocks
+      && line
+        .first_loc()
+        .and_then(|loc| self.lexer.byte_before(loc))
+        .is_none_or(|b| b == b'\n')
+  }
+
   fn recover_custom_line_comment(&mut self, state: &mut Accum<'arena>) {
     let Some(ref comment_bytes) = self.ctx.custom_line_comment else {
       return;
-- 
2.43.0


From bad3d1da055b2329e102551aecd6e67f28639394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 70/99] fix: separators of cells apart from what they are
 joined to

---
 ast/src/table.rs                           | 10 ++++++
 parser/src/tasks/table/mod.rs              | 32 +++++++++++++----
 parser/src/tasks/table/parse_table.rs      |  5 ++-
 parser/src/tasks/table/parse_table_spec.rs | 42 +++++++++++++---------
 4 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/ast/src/table.rs b/ast/src/table.rs
index 2663096..01804a8 100644
--- a/ast/src/table.rs
+++ b/ast/src/table.rs
@@ -74,6 +74,16 @@ pub enum ColWidth {
   Auto,
 }
 
+impl ColWidth {
+  pub fn at_least_one(self) -> Self {
+    match self {
+      Self::Proportional(n) => Self::Proportional(n.max(1)),
+      Self::Percentage(n) => Self::Percentage(n.max(1)),
+      Self::Auto => Self::Auto,
+    }
+  }
+}
+
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct ColSpec {
   pub width: ColWidth,
diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 959d02d..9ba90a6 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -102,17 +102,35 @@ impl<'arena> TableTokens<'arena> {
     let Some((idx, _)) = next_sep.filter(|_| !token.attr_replacement) else {
       return self.consume_current();
     };
-    let before = &token.lexeme[..idx];
-    let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
+    Some(self.consume_leading(idx))
+  }
+
+  /// the first bytes of the current token, leaving the rest of it
+  fn consume_leading(&mut self, len: usize) -> Token<'arena> {
+    let token = self.current().unwrap();
+    let lexeme = BumpString::from_str_in(&token.lexeme[..len], self.0.bump_arena());
     let loc = token.loc;
-    let before_len = before.len() as u32;
-    self.drop_leading_bytes(before_len);
-    Some(Token {
+    self.drop_leading_bytes(len as u32);
+    Token {
       kind: TokenKind::Word,
       lexeme,
-      loc: SourceLocation::new(loc.start, loc.start + before_len, loc.include_depth),
+      loc: SourceLocation::new(loc.start, loc.start + len as u32, loc.include_depth),
       attr_replacement: false,
-    })
+    }
+  }
+
+  /// make each separator a token of its own, but for those from attributes
+  pub fn separate(&mut self, sep: char) {
+    let mut separated = Deq::with_capacity(self.0.num_tokens(), self.0.bump_arena());
+    while !self.is_empty() {
+      let sep_len = sep.len_utf8();
+      if self.starts_with_sep(sep) && self.current().unwrap().lexeme.len() > sep_len {
+        separated.push(self.consume_leading(sep_len));
+      } else if let Some(token) = self.consume_splitting(Some(sep)) {
+        separated.push(token);
+      }
+    }
+    self.0 = Line::new(separated);
   }
 
   /// consume a separator, leaving the rest of the token it starts
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index a102cb4..1eb8c65 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -53,7 +53,7 @@ impl<'arena> Parser<'arena> {
 
     let col_widths = col_specs
       .iter()
-      .map(|spec| spec.width)
+      .map(|spec| spec.width.at_least_one())
       .collect_in::<BumpVec<'_, _>>(self.bump);
 
     let mut ctx = TableContext {
@@ -89,6 +89,9 @@ impl<'arena> Parser<'arena> {
     }
 
     let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
+    if let (DataFormat::Prefix(sep), None) = (ctx.format, ctx.cell_separator_tokenkind) {
+      tokens.separate(sep);
+    }
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 98132b1..6a106b8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -44,9 +44,9 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
     if width == "~" {
       spec.width = ColWidth::Auto;
     } else if let Some(digits) = width.strip_suffix('%') {
-      spec.width = ColWidth::Percentage(digits.parse().unwrap_or(1).max(1));
+      spec.width = ColWidth::Percentage(digits.parse().unwrap_or(1));
     } else {
-      spec.width = ColWidth::Proportional(width.parse().unwrap_or(1).max(1));
+      spec.width = ColWidth::Proportional(width.parse().unwrap_or(1));
     }
   }
 
@@ -147,7 +147,7 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 && !style_within_word {
+    if cursor == 0 {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
@@ -155,20 +155,30 @@ impl<'arena> Parser<'arena> {
     let mut buf = [0; 4];
     let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
 
-    // the separator can be joined to the style before it, and to the text after it
-    let before = if style_within_word { 1 } else { 0 };
-    let rest = &cursor_token.lexeme.as_bytes()[before..];
-    if cursor_token.attr_replacement || !rest.starts_with(sep_bytes) {
-      return None;
+    match (style_within_word, cursor_token.lexeme.as_bytes()) {
+      (false, bytes) if bytes == sep_bytes => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
+        let joined = tokens.nth(cursor as usize).unwrap();
+        Some(CellStart {
+          spec,
+          drop_tokens: cursor,
+          drop_bytes: 1 + sep_bytes.len() as u32,
+          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
+        })
+      }
+      _ => None,
     }
-    let drop = (before + sep_bytes.len()) as u32;
-    let whole = rest.len() == sep_bytes.len();
-    Some(CellStart {
-      spec,
-      drop_tokens: if whole { cursor + 1 } else { cursor },
-      drop_bytes: if whole { 0 } else { drop },
-      resuming: cursor_token.loc.start + drop,
-    })
   }
 }
 
-- 
2.43.0


From 78076c5c7be54a774c0ddec82db112dd26b2232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 71/99] fix: lines of verbatim blocks don't set attributes

---
 parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 42fbd3c..2cce975 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -152,7 +152,7 @@ impl<'arena> Parser<'arena> {
           self.ctx.in_header = false;
         } else if token.kind == Colon
           && self.ctx.subs.attr_refs()
-          && !self.ctx.within_block_comment()
+          && self.ctx.verbatim_delimiter.is_none()
           && !self.within_table
         {
           self.try_parse_attr_def(&mut token)?;
-- 
2.43.0


From fcd465e2cd21472433993e4825cb57aead0d19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 72/99] fix: a fence with a language starts verbatim text as
 well

---
 parser/src/parse_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 726bf0f..4fc180a 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -233,7 +233,7 @@ impl<'arena> ParseContext<'arena> {
       if line.is_delimiter(open) {
         self.verbatim_delimiter = None;
       }
-    } else if line.is_any_delimiter() {
+    } else {
       self.verbatim_delimiter = line
         .current_token()
         .and_then(|token| token.to_delimiter())
-- 
2.43.0


From f914b30ff657b72fb03dc9dd188d08285fb6e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 73/99] fix: an email address joined to the value of a
 reference isn't doubled in a cell

---
 parser/src/line.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a8f2c28..d76bd81 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -988,8 +988,15 @@ impl<'arena> Line<'arena> {
         attr_loc = Some(token.loc);
       } else if attr_loc.is_some_and(|loc| loc == token.loc) {
         token.lexeme = BumpString::from_str_in("", bump);
-      } else {
-        attr_loc = None;
+      } else if let Some(loc) = attr_loc.take()
+        && token.kind(Email)
+        && token.attr_replacement
+        && loc.start == token.loc.start
+        && loc.end < token.loc.end
+      {
+        // what follows the ref was joined to its value as an email address
+        let joined = token.lexeme.len() - (token.loc.end - loc.end) as usize;
+        token.lexeme = BumpString::from_str_in(&token.lexeme[joined..], bump);
       }
     }
   }
-- 
2.43.0


From 269f19910853ef59fc405aa3259f092b2ab5faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 74/99] fix: a directive is escaped at the start of a line only

---
 parser/src/tasks/parse_inlines/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 21c1a9e..7c73b60 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -862,6 +862,7 @@ impl<'arena> Parser<'arena> {
               Some((Word, _)) | None => acc.push_text_token(&token),
               // nothing to escape
               Some((kind, _)) if !subs.escapable(kind) => acc.push_text_token(&token),
+              Some((Directive, _)) if !self.at_line_start(token.loc) => acc.push_text_token(&token),
               Some((CalloutNumber, _)) if !line.continues_valid_callout_nums() => {
                 acc.push_text_token(&token)
               }
@@ -1081,10 +1082,11 @@ impl<'arena> Parser<'arena> {
     line.is_comment()
       && !self.ctx.subs.callouts()
       && self.ctx.can_nest_blocks
-      && line
-        .first_loc()
-        .and_then(|loc| self.lexer.byte_before(loc))
-        .is_none_or(|b| b == b'\n')
+      && line.first_loc().is_none_or(|loc| self.at_line_start(loc))
+  }
+
+  fn at_line_start(&self, loc: SourceLocation) -> bool {
+    self.lexer.byte_before(loc).is_none_or(|b| b == b'\n')
   }
 
   fn recover_custom_line_comment(&mut self, state: &mut Accum<'arena>) {
-- 
2.43.0


From 48c07f5239c33219f535c75db47a224a96c5dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:47 +0000
Subject: [PATCH 75/99] fix: a line doesn't end as an attribute list by the
 value of a reference

---
 parser/src/line.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index d76bd81..1b4d595 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -276,6 +276,7 @@ impl<'arena> Line<'arena> {
     self.is_fully_unconsumed()
       && self.starts(OpenBracket)
       && self.ends_with_nonescaped(CloseBracket)
+      && !self.last_token().is_attr_replacement()
       && !self.peek_token().kind(OpenBracket)
   }
 
-- 
2.43.0


From 5b6b71fd970d308f9766257b0ca64049304567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 76/99] fix: delimiters of all kinds can be longer than four
 characters

Only those of example blocks could, so no other block could be nested in
one of its kind, and a longer line was taken for text.
---
 parser/src/delimiter.rs          | 27 ++++++++++++++++----------
 parser/src/lexer/source_lexer.rs | 21 +++++++-------------
 parser/src/parser.rs             | 33 +++++++++++++++-----------------
 3 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index e5b3904..f150f1b 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -18,6 +18,12 @@ pub struct Delimiter {
   pub len: u8,
 }
 
+impl Delimiter {
+  pub const fn clamp_len(len: usize) -> u8 {
+    if len > u8::MAX as usize { u8::MAX } else { len as u8 }
+  }
+}
+
 impl DelimiterKind {
   pub const fn is_verbatim(&self) -> bool {
     use DelimiterKind::*;
@@ -43,22 +49,23 @@ impl From<DelimiterKind> for BlockContext {
 impl Token<'_> {
   pub fn to_delimiter(&self) -> Option<Delimiter> {
     let kind = self.to_delimiter_kind()?;
-    Some(Delimiter { kind, len: self.lexeme.len() as u8 })
+    Some(Delimiter { kind, len: Delimiter::clamp_len(self.lexeme.len()) })
   }
 
   pub fn to_delimiter_kind(&self) -> Option<DelimiterKind> {
     if self.kind != TokenKind::DelimiterLine {
       return None;
     }
-    match self.lexeme.as_str() {
-      "****" => Some(DelimiterKind::Sidebar),
-      "____" => Some(DelimiterKind::BlockQuote),
-      "----" | "```" => Some(DelimiterKind::Listing),
-      "...." => Some(DelimiterKind::Literal),
-      "++++" => Some(DelimiterKind::Passthrough),
-      "////" => Some(DelimiterKind::Comment),
-      "--" => Some(DelimiterKind::Open),
-      _ => Some(DelimiterKind::Example), // length can vary for nesting
+    // length can vary for nesting
+    match self.lexeme.as_bytes() {
+      b"--" => Some(DelimiterKind::Open),
+      [b'*', ..] => Some(DelimiterKind::Sidebar),
+      [b'_', ..] => Some(DelimiterKind::BlockQuote),
+      [b'-' | b'`', ..] => Some(DelimiterKind::Listing),
+      [b'.', ..] => Some(DelimiterKind::Literal),
+      [b'+', ..] => Some(DelimiterKind::Passthrough),
+      [b'/', ..] => Some(DelimiterKind::Comment),
+      _ => Some(DelimiterKind::Example),
     }
   }
 }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index ce57231..59bd312 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -180,23 +180,16 @@ impl<'arena> SourceLexer<'arena> {
     match sequence {
       [Some(b'`'), Some(b'`'), Some(b'`'), b, _] if b != Some(b'`') => Some((3, b'`')),
       [Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None, _, _] => Some((2, b'-')),
-      #[rustfmt::skip]
-        [Some(b'*'), Some(b'*'), Some(b'*'), Some(b'*'), Some(b'\n' | b'\r') | None]
-      | [Some(b'_'), Some(b'_'), Some(b'_'), Some(b'_'), Some(b'\n' | b'\r') | None]
-      | [Some(b'-'), Some(b'-'), Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None]
-      | [Some(b'+'), Some(b'+'), Some(b'+'), Some(b'+'), Some(b'\n' | b'\r') | None]
-      | [Some(b'.'), Some(b'.'), Some(b'.'), Some(b'.'), Some(b'\n' | b'\r') | None]
-      | [Some(b'/'), Some(b'/'), Some(b'/'), Some(b'/'), Some(b'\n' | b'\r') | None]
-      | [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'\n' | b'\r') | None] => {
-        Some((4, sequence[0].unwrap()))
-      },
-      [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'=')] => {
-        let mut n = 5;
-        while self.nth(n) == Some(b'=') {
+      [Some(b'-'), Some(b'-'), Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None] => Some((4, b'-')),
+      [Some(b), b1, b2, b3, _]
+        if b != b'`' && b != b'-' && b1 == Some(b) && b2 == Some(b) && b3 == Some(b) =>
+      {
+        let mut n = 4;
+        while self.nth(n) == Some(b) {
           n += 1;
         }
         if matches!(self.nth(n), Some(b'\n' | b'\r') | None) {
-          Some((n, b'='))
+          Some((n, b))
         } else {
           None
         }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 2cce975..4deffb3 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -277,24 +277,21 @@ impl<'arena> Parser<'arena> {
   }
 
   fn at_delimiter(&self, delimiter: Delimiter) -> bool {
-    match delimiter.kind {
-      DelimiterKind::BlockQuote => self.lexer.at_delimiter_line() == Some((4, b'_')),
-      DelimiterKind::Example => {
-        self.lexer.at_delimiter_line() == Some((delimiter.len as u32, b'='))
-      }
-      DelimiterKind::Open => self.lexer.at_delimiter_line() == Some((2, b'-')),
-      DelimiterKind::Sidebar => self.lexer.at_delimiter_line() == Some((4, b'*')),
-      DelimiterKind::Listing => {
-        if delimiter.len == 3 {
-          self.lexer.at_delimiter_line() == Some((3, b'`'))
-        } else {
-          self.lexer.at_delimiter_line() == Some((4, b'-'))
-        }
-      }
-      DelimiterKind::Literal => self.lexer.at_delimiter_line() == Some((4, b'.')),
-      DelimiterKind::Passthrough => self.lexer.at_delimiter_line() == Some((4, b'+')),
-      DelimiterKind::Comment => self.lexer.at_delimiter_line() == Some((4, b'/')),
-    }
+    let byte = match delimiter.kind {
+      DelimiterKind::BlockQuote => b'_',
+      DelimiterKind::Example => b'=',
+      DelimiterKind::Open => b'-',
+      DelimiterKind::Sidebar => b'*',
+      DelimiterKind::Listing if delimiter.len == 3 => b'`',
+      DelimiterKind::Listing => b'-',
+      DelimiterKind::Literal => b'.',
+      DelimiterKind::Passthrough => b'+',
+      DelimiterKind::Comment => b'/',
+    };
+    self
+      .lexer
+      .at_delimiter_line()
+      .is_some_and(|(len, b)| b == byte && Delimiter::clamp_len(len as usize) == delimiter.len)
   }
 
   pub(crate) fn restore_lines(&mut self, lines: ContiguousLines<'arena>) {
-- 
2.43.0


From 403549ace23f3f8ac15bddcb470cbc048608db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:24 +0000
Subject: [PATCH 77/99] fix: a comment or a line starting with a plus doesn't
 break a list

---
 parser/src/line.rs             | 3 ++-
 parser/src/tasks/parse_list.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 1b4d595..5fd0267 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -866,7 +866,8 @@ impl<'arena> Line<'arena> {
       return false;
     }
     match self.current_token().map(|t| t.kind) {
-      None | Some(Plus) => false,
+      None => false,
+      Some(Plus) => !self.is_list_continuation(),
       Some(OpenBracket) => !self.is_block_attr_list() && !self.is_block_anchor(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..83fd064 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -107,7 +107,7 @@ impl<'arena> Parser<'arena> {
     }
     while lines
       .current()
-      .map(|line| line.continues_list_item_principle())
+      .map(|line| line.is_comment() || line.continues_list_item_principle())
       .unwrap_or(false)
     {
       let mut line = lines.consume_current().unwrap();
-- 
2.43.0


From 0e6cd47153b018657dcda4b564c1efdbb8720956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 78/99] fix: lists go on neither inside of a block of an item,
 nor in its attached paragraphs

---
 core/src/regx.rs                      |  2 +-
 parser/src/line.rs                    |  8 ++++++++
 parser/src/parse_context.rs           | 11 +++++------
 parser/src/tasks/parse_block.rs       |  3 +++
 parser/src/tasks/parse_inlines/mod.rs |  9 ++++++---
 parser/src/tasks/parse_list.rs        |  2 ++
 6 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 1cd1e91..1421970 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -41,7 +41,7 @@ lazy_static! {
 
 // line
 lazy_static! {
-  pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s?(\*+)( |\t)+.+"#).unwrap();
+  pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s*(\*+)( |\t)+.+"#).unwrap();
 }
 
 // keyboard macro
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 5fd0267..ded38d6 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -903,6 +903,14 @@ impl<'arena> Line<'arena> {
       .unwrap_or(false)
   }
 
+  /// whether this is the next item of one of the lists
+  pub fn continues_list(&self, stack: &ListStack) -> bool {
+    self
+      .list_marker()
+      .map(|marker| !stack.is_empty() && !stack.starts_nested_list(marker))
+      .unwrap_or(false)
+  }
+
   pub fn consume_checklist_item(
     &mut self,
     bump: &'arena Bump,
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 4fc180a..8896e53 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -214,12 +214,11 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
-      && self
-        .list
-        .stack
-        .last()
-        .is_some_and(|last| last.is_description())
+    self
+      .list
+      .stack
+      .last()
+      .is_some_and(|last| last.is_description())
   }
 
   pub fn within_block_comment(&self) -> bool {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 984cbaa..f9788b4 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -353,6 +353,8 @@ impl<'arena> Parser<'arena> {
 
     let prev = self.ctx.delimiter;
     self.ctx.delimiter = Some(delimiter);
+    // the lists it is in don't go on inside of it
+    let prev_list = std::mem::take(&mut self.ctx.list);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
     let restore_subs = self.ctx.set_subs_for(context, &meta);
@@ -436,6 +438,7 @@ impl<'arena> Parser<'arena> {
     };
 
     self.ctx.delimiter = prev;
+    self.ctx.list = prev_list;
     Ok(Some(Block {
       content,
       context,
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 7c73b60..ff09ecb 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1058,16 +1058,19 @@ impl<'arena> Parser<'arena> {
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
       self.ctx.parsing_description_list()
-      && (line.starts_description_list_item() || line.is_list_continuation())
+      && (line.starts_list_item() || line.is_list_continuation())
     )
 
     // list continuation
-    || (self.ctx.list.parsing_continuations && line.is_list_continuation())
+    || (
+      self.ctx.list.parsing_continuations
+      && (line.is_list_continuation() || line.continues_list(&self.ctx.list.stack))
+    )
 
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 83fd064..d73039d 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -16,6 +16,7 @@ impl<'arena> Parser<'arena> {
     self.restore_lines(lines);
 
     self.ctx.list.stack.push(marker);
+    let attached = std::mem::replace(&mut self.ctx.list.parsing_continuations, false);
     let depth = self.ctx.list.stack.depth();
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
@@ -38,6 +39,7 @@ impl<'arena> Parser<'arena> {
       self.ctx.bibliography_ctx = BiblioContext::Section;
     }
     self.ctx.list.stack.pop();
+    self.ctx.list.parsing_continuations = attached;
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
     }
-- 
2.43.0


From 12dcd0e91b5377fac7badd2b8b58d0a3540a12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 79/99] fix: the style of a list in a block of an item counts
 the lists around it

---
 parser/src/list_context.rs      | 8 ++++++++
 parser/src/tasks/parse_block.rs | 6 +++++-
 parser/src/tasks/parse_list.rs  | 2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 95df2dd..a17f54f 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -6,6 +6,14 @@ use crate::internal::*;
 pub(crate) struct ListContext {
   pub(crate) stack: ListStack,
   pub(crate) parsing_continuations: bool,
+  /// how many lists the innermost delimited block is in
+  pub(crate) outer_depth: u8,
+}
+
+impl ListContext {
+  pub fn depth(&self) -> u8 {
+    self.outer_depth + self.stack.depth()
+  }
 }
 
 #[derive(Debug)]
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index f9788b4..c6c74af 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -354,7 +354,11 @@ impl<'arena> Parser<'arena> {
     let prev = self.ctx.delimiter;
     self.ctx.delimiter = Some(delimiter);
     // the lists it is in don't go on inside of it
-    let prev_list = std::mem::take(&mut self.ctx.list);
+    let inner_list = ListContext {
+      outer_depth: self.ctx.list.depth(),
+      ..ListContext::default()
+    };
+    let prev_list = std::mem::replace(&mut self.ctx.list, inner_list);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
     let restore_subs = self.ctx.set_subs_for(context, &meta);
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index d73039d..ea22c9e 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -17,7 +17,7 @@ impl<'arena> Parser<'arena> {
 
     self.ctx.list.stack.push(marker);
     let attached = std::mem::replace(&mut self.ctx.list.parsing_continuations, false);
-    let depth = self.ctx.list.stack.depth();
+    let depth = self.ctx.list.depth();
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
 
-- 
2.43.0


From 3cd43769fa7f8a2cb52c538ae41221a03d8b0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 80/99] fix(html5s): the title of a verse or a quoted paragraph
 is a heading of its section

---
 backend-html5s/src/html5s.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 82a3a89..7e9c657 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -392,13 +392,15 @@ impl Backend for Html5s {
   }
 
   fn enter_quoted_paragraph(&mut self, block: &Block) {
-    self.open_element("div", &["quote-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["quote-block"], &block.meta.attrs);
+    self.render_buffered_block_title(block, true);
     self.push_str("<blockquote><p>");
   }
 
-  fn exit_quoted_paragraph(&mut self, _block: &Block) {
-    self.push_str("</blockquote></div>");
+  fn exit_quoted_paragraph(&mut self, block: &Block) {
+    self.push_str("</blockquote>");
+    self.push_str(if block.has_title() { "</section>" } else { "</div>" });
   }
 
   fn enter_quote_block(&mut self, block: &Block, _has_attribution: bool) {
@@ -441,8 +443,9 @@ impl Backend for Html5s {
   }
 
   fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
-    self.open_element("div", &["verse-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["verse-block"], &block.meta.attrs);
+    self.render_buffered_block_title(block, true);
     if has_attribution {
       self.push_str(r#"<blockquote class="verse">"#);
     }
-- 
2.43.0


From b608e2792951f4ebc19f91089340bdbc687258a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 81/99] fix: a quote ends where its paragraph does, and what it
 holds ends with it

---
 parser/src/parse_context.rs           |  9 ++++
 parser/src/parser.rs                  | 18 +++++--
 parser/src/tasks/parse_block.rs       | 71 ++++++++++++++++++---------
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 4 files changed, 72 insertions(+), 28 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 8896e53..40aab71 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -202,6 +202,15 @@ impl<'arena> ParseContext<'arena> {
     self.table_cell_ctx == TableCellContext::AsciiDocCell
   }
 
+  /// lists aren't continued by what is in a block of an item, returns what to restore behind it
+  pub fn begin_inner_lists(&mut self) -> ListContext {
+    let inner = ListContext {
+      outer_depth: self.list.depth(),
+      ..ListContext::default()
+    };
+    std::mem::replace(&mut self.list, inner)
+  }
+
   pub fn parsing_simple_desc_def(&self) -> bool {
     if self.list.parsing_continuations || self.list.stack.is_empty() {
       return false;
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 4deffb3..20c8c96 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -17,6 +17,8 @@ pub struct Parser<'arena> {
   /// an attr entry amid a table is text
   pub(super) within_table: bool,
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
+  /// what is left of the quote being parsed, in reverse
+  pub(super) quoted_lines: Option<Vec<Line<'arena>>>,
   #[cfg(feature = "attr_ref_observation")]
   pub(super) attr_ref_observer: Option<Box<dyn AttrRefObserver>>,
 }
@@ -41,6 +43,7 @@ impl<'arena> Parser<'arena> {
       strict: true,
       cell_src: None,
       within_table: false,
+      quoted_lines: None,
       include_resolver: None,
       lexer,
       #[cfg(feature = "attr_ref_observation")]
@@ -129,6 +132,9 @@ impl<'arena> Parser<'arena> {
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
+    if let Some(quoted_lines) = &mut self.quoted_lines {
+      return Ok(quoted_lines.pop());
+    }
     if self.lexer.is_eof() {
       return Ok(None);
     }
@@ -189,9 +195,12 @@ impl<'arena> Parser<'arena> {
         return Ok(Some(peeked));
       }
     }
-    self.lexer.consume_empty_lines();
-    if self.lexer.is_eof() {
-      return Ok(None);
+    let quoted = self.quoted_lines.is_some();
+    if !quoted {
+      self.lexer.consume_empty_lines();
+      if self.lexer.is_eof() {
+        return Ok(None);
+      }
     }
     let mut lines = Deq::new(self.bump);
     self.within_table = false;
@@ -215,6 +224,9 @@ impl<'arena> Parser<'arena> {
       }
       let ends_with_attr_decl = line.is_attr_decl();
       lines.push(line);
+      if quoted {
+        continue;
+      }
       if self.lexer.at_newline() {
         break;
       }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index c6c74af..90da3ea 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -204,13 +204,38 @@ impl<'arena> Parser<'arena> {
       _ => {}
     }
 
+    // what ends the paragraph isn't part of the quote
+    let mut rest = ContiguousLines::empty(self.bump);
+    if lines.starts(DoubleQuote) || self.ctx.in_markdown_blockquote {
+      rest = self.split_off_after_paragraph(&mut lines);
+    }
     if lines.is_quoted_paragraph(self.ctx.in_markdown_blockquote) {
-      self.parse_quoted_paragraph(lines, meta)
+      let block = self.parse_quoted_paragraph(lines, meta)?;
+      self.restore_lines(rest);
+      Ok(block)
     } else {
+      while let Some(line) = rest.consume_current() {
+        lines.push(line);
+      }
       self.parse_paragraph(lines, meta)
     }
   }
 
+  fn split_off_after_paragraph(
+    &self,
+    lines: &mut ContiguousLines<'arena>,
+  ) -> ContiguousLines<'arena> {
+    let mut paragraph = ContiguousLines::with_capacity(lines.len(), self.bump);
+    while let Some(line) = lines.consume_current() {
+      if !paragraph.is_empty() && self.should_stop_at(&line) {
+        lines.restore_if_nonempty(line);
+        break;
+      }
+      paragraph.push(line);
+    }
+    std::mem::replace(lines, paragraph)
+  }
+
   fn parse_discrete_heading(
     &mut self,
     mut lines: ContiguousLines<'arena>,
@@ -262,9 +287,9 @@ impl<'arena> Parser<'arena> {
     mut lines: ContiguousLines<'arena>,
     meta: ChunkMeta<'arena>,
   ) -> Result<Option<Block<'arena>>> {
+    let rest = self.split_off_after_paragraph(&mut lines);
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
-    let mut paras = BumpVec::new_in(self.bump);
-    let mut current = ContiguousLines::new(Deq::new(self.bump));
+    let mut quoted = Vec::with_capacity(lines.len());
     while let Some(mut line) = lines.consume_current() {
       if line.starts(GreaterThan) {
         line.remove_first_token();
@@ -272,30 +297,32 @@ impl<'arena> Parser<'arena> {
           line.remove_first_token();
         }
       }
-      if line.is_empty() {
-        if !current.is_empty() {
-          paras.push(current);
-          current = ContiguousLines::new(Deq::new(self.bump));
-        }
-      } else {
-        current.push(line);
-      }
-    }
-    if !current.is_empty() {
-      paras.push(current);
+      quoted.push(line);
     }
+    quoted.reverse();
 
-    self.ctx.in_markdown_blockquote = true;
-    assert!(self.peeked_lines.is_none());
+    // what is quoted is read as if nothing was around it
+    let outer_quote = self.quoted_lines.replace(quoted);
+    let in_quote = std::mem::replace(&mut self.ctx.in_markdown_blockquote, true);
+    let delimiter = self.ctx.delimiter.replace(Delimiter { kind: DelimiterKind::BlockQuote, len: 0 });
+    let list = self.ctx.begin_inner_lists();
     let mut blocks = BumpVec::new_in(self.bump);
-    for para in paras.into_iter() {
-      self.restore_lines(para);
+    loop {
       if let Some(block) = self.parse_block()? {
         loc.extend_end(&block.loc);
         blocks.push(block);
+      } else if let Some(mut unparsed) = self.peeked_lines.take() {
+        unparsed.consume_current();
+        self.restore_lines(unparsed);
+      } else if self.quoted_lines.as_ref().is_none_or(|lines| lines.is_empty()) {
+        break;
       }
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.ctx.list = list;
+    self.ctx.delimiter = delimiter;
+    self.ctx.in_markdown_blockquote = in_quote;
+    self.quoted_lines = outer_quote;
+    self.restore_lines(rest);
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
@@ -354,11 +381,7 @@ impl<'arena> Parser<'arena> {
     let prev = self.ctx.delimiter;
     self.ctx.delimiter = Some(delimiter);
     // the lists it is in don't go on inside of it
-    let inner_list = ListContext {
-      outer_depth: self.ctx.list.depth(),
-      ..ListContext::default()
-    };
-    let prev_list = std::mem::replace(&mut self.ctx.list, inner_list);
+    let prev_list = self.ctx.begin_inner_lists();
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
     let restore_subs = self.ctx.set_subs_for(context, &meta);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index ff09ecb..0128fa1 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1053,7 +1053,7 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
-  fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn should_stop_at(&self, line: &Line<'arena>) -> bool {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
-- 
2.43.0


From 76e20fca2d8b2690593d2bcfacad6fcb60b507c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 82/99] fix: a section starts at no level in a delimited block

---
 parser/src/tasks/parse_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 90da3ea..3095c01 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -36,7 +36,7 @@ impl<'arena> Parser<'arena> {
     }
 
     match self.section_start_level(&lines, &meta) {
-      Some(0 | 1) if self.ctx.delimiter.is_some() => {}
+      Some(_) if self.ctx.delimiter.is_some() => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
         self.restore_peeked(lines, meta);
-- 
2.43.0


From bb4cf8ebcc45e7d601a80ad211f2dae6b5434ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 83/99] fix: a term or an attribution in brackets isn't taken
 for block attributes

---
 parser/src/line.rs                    |  4 +++-
 parser/src/tasks/parse_block.rs       |  2 +-
 parser/src/tasks/parse_inlines/mod.rs | 15 ++++++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index ded38d6..e33b901 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -874,7 +874,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn is_list_continuation(&self) -> bool {
-    self.num_tokens() == 1 && self.starts(Plus)
+    self.num_tokens() == 1 && self.starts(Plus) && self.is_fully_unconsumed()
   }
 
   pub fn trim_leading_whitespace(&mut self) {
@@ -1015,6 +1015,7 @@ impl<'arena> Line<'arena> {
   pub fn remove_first_token(&mut self) {
     if !self.tokens.is_empty() {
       self.tokens.remove_first();
+      self.orig_len -= 1;
     }
   }
 
@@ -1034,6 +1035,7 @@ impl<'arena> Line<'arena> {
       let delta = token_len - indent;
       if delta == token_len {
         self.tokens.remove_first();
+      self.orig_len -= 1;
       } else {
         token.loc.start += delta as u32;
         for _ in 0..delta {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 3095c01..d2e3662 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -227,7 +227,7 @@ impl<'arena> Parser<'arena> {
   ) -> ContiguousLines<'arena> {
     let mut paragraph = ContiguousLines::with_capacity(lines.len(), self.bump);
     while let Some(line) = lines.consume_current() {
-      if !paragraph.is_empty() && self.should_stop_at(&line) {
+      if !paragraph.is_empty() && self.should_stop_at(&line, false) {
         lines.restore_if_nonempty(line);
         break;
       }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 0128fa1..75054b0 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -31,8 +31,9 @@ impl<'arena> Parser<'arena> {
     let mut acc = Accum::new(inlines, text);
     let mut inline_attrs: Option<AttrList> = None;
 
+    let mut is_first = true;
     while let Some(mut line) = lines.consume_current() {
-      if self.should_stop_at(&line) {
+      if self.should_stop_at(&line, std::mem::take(&mut is_first)) {
         acc.inlines.remove_trailing_newline();
         lines.restore_if_nonempty(line);
         return self.finish_inlines(acc, inline_attrs);
@@ -1053,23 +1054,27 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
-  pub(crate) fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn should_stop_at(&self, line: &Line<'arena>, is_first: bool) -> bool {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
+    || (
+      (line.is_block_attr_list() || line.is_block_anchor())
+      && self.ctx.can_nest_blocks
+      && !is_first
+    )
 
     // description list
     || (
       self.ctx.parsing_description_list()
-      && (line.starts_list_item() || line.is_list_continuation())
+      && (line.is_list_continuation() || line.starts_list_item() && !is_first)
     )
 
     // list continuation
     || (
       self.ctx.list.parsing_continuations
-      && (line.is_list_continuation() || line.continues_list(&self.ctx.list.stack))
+      && (line.is_list_continuation() || line.continues_list(&self.ctx.list.stack) && !is_first)
     )
 
     // special case: ending verbatim delimited block, non-matching delimiters
-- 
2.43.0


From d4bc0b4e6cad726cf340e84e4bbec48324b5a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 84/99] fix: a line with a passthrough isn't looked at twice, a
 term in brackets starts an item

---
 parser/src/line.rs                    | 7 ++++---
 parser/src/tasks/parse_inlines/mod.rs | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index e33b901..82a4dd9 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -868,7 +868,9 @@ impl<'arena> Line<'arena> {
     match self.current_token().map(|t| t.kind) {
       None => false,
       Some(Plus) => !self.is_list_continuation(),
-      Some(OpenBracket) => !self.is_block_attr_list() && !self.is_block_anchor(),
+      Some(OpenBracket) => {
+        !self.is_block_attr_list() && !self.is_block_anchor() && !self.starts_list_item()
+      }
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
   }
@@ -1034,8 +1036,7 @@ impl<'arena> Line<'arena> {
     if token.kind(Whitespace) && token_len > indent {
       let delta = token_len - indent;
       if delta == token_len {
-        self.tokens.remove_first();
-      self.orig_len -= 1;
+        self.remove_first_token();
       } else {
         token.loc.start += delta as u32;
         for _ in 0..delta {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 75054b0..e139785 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -75,7 +75,11 @@ impl<'arena> Parser<'arena> {
 
         if (subs.macros() || line.is_unresolved_include()) && line.may_contain_inline_pass() {
           self.replace_inline_pass(&mut line, lines)?;
-          break;
+          match lines.consume_current() {
+            Some(replaced) => line = replaced,
+            None => break,
+          }
+          continue;
         }
 
         let Some(token) = line.consume_current() else {
-- 
2.43.0


From 4c694843b7f2da230ea371b24589f41f01a43939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 85/99] fix: a fenced block with a language ends the text of a
 list item

---
 parser/src/line.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 82a4dd9..bfc1adf 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -867,11 +867,13 @@ impl<'arena> Line<'arena> {
     }
     match self.current_token().map(|t| t.kind) {
       None => false,
-      Some(Plus) => !self.is_list_continuation(),
+      Some(Plus) => !self.is_list_continuation() && !self.starts_list_item(),
       Some(OpenBracket) => {
         !self.is_block_attr_list() && !self.is_block_anchor() && !self.starts_list_item()
       }
-      _ => !self.starts_list_item() && !self.is_any_delimiter(),
+      // (a language can follow)
+      Some(DelimiterLine) => false,
+      _ => !self.starts_list_item(),
     }
   }
 
-- 
2.43.0


From c0c4e92f349b1da5fdec5356785a5860b302438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 86/99] fix: the 255th callout doesn't overflow

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 parser/src/list_context.rs              | 2 +-
 parser/src/parse_context.rs             | 6 +++---
 parser/src/tasks/parse_list.rs          | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 76e33a6..d082607 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -727,7 +727,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index a17f54f..5254922 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -12,7 +12,7 @@ pub(crate) struct ListContext {
 
 impl ListContext {
   pub fn depth(&self) -> u8 {
-    self.outer_depth + self.stack.depth()
+    self.outer_depth.saturating_add(self.stack.depth())
   }
 }
 
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 40aab71..a1d0ced 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -150,8 +150,8 @@ impl<'arena> ParseContext<'arena> {
       } else {
         callouts.push(Callout {
           list_idx: last.list_idx,
-          callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          callout_idx: last.callout_idx.saturating_add(1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
@@ -163,7 +163,7 @@ impl<'arena> ParseContext<'arena> {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
       self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
+        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
       ));
     }
   }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index ea22c9e..f23eb65 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -100,7 +100,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From 2771db294525b554e6ab9fb82af99632629e94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 87/99] fix: a term that looks like a line of its own is a term

---
 parser/src/line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index bfc1adf..1268ed1 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -786,7 +786,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn list_marker(&self) -> Option<ListMarker> {
-    if self.is_comment() || self.current_is(EqualSigns) {
+    if self.is_comment() || self.current_is(EqualSigns) || self.current_is(DelimiterLine) {
       return None;
     }
 
@@ -941,6 +941,8 @@ impl<'arena> Line<'arena> {
     while !self.starts_with_seq(seq) {
       line.push(self.consume_current().unwrap());
     }
+    // it's a part of a line, not a line
+    line.orig_len = self.orig_len;
     line
   }
 
-- 
2.43.0


From e663dfe7a52f963adf67f37aab1d1ae995004610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 88/99] fix: what follows a plugin's block macro isn't lost

---
 parser/src/tasks/parse_block.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d2e3662..5f3228e 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -628,6 +628,7 @@ impl<'arena> Parser<'arena> {
     meta: ChunkMeta<'arena>,
   ) -> Result<Block<'arena>> {
     let mut line = lines.consume_current().unwrap();
+    self.restore_lines(lines);
     let line_loc = line.loc().unwrap();
     let source = line.reassemble_src();
     let mut name = line.discard_assert(MacroName).lexeme;
-- 
2.43.0


From 05410f661ed86b3e4e8218dd84e1efe38fd5aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:52 +0000
Subject: [PATCH 89/99] fix: a plugin's macros can be used in a table cell and
 in the value of an attribute

---
 parser/src/lexer/root_lexer.rs | 17 ++++++++++++++---
 parser/src/parser.rs           |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 84bc5ba..7a0048e 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -117,7 +117,9 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn set_tmp_buf(&mut self, buf: &str, loc: BufLoc) {
     self.outer_buf = self.tmp_buf.take();
-    self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
+    let mut lexer = SourceLexer::from_str(buf, SourceFile::Tmp, self.bump);
+    lexer.plugin_macros = Rc::clone(&self.plugin_macros);
+    self.tmp_buf = Some((lexer, loc));
   }
 
   pub const fn reading_replacement(&self) -> bool {
@@ -390,10 +392,19 @@ impl<'arena> RootLexer<'arena> {
     for name in names {
       macros.push(BumpString::from_str_in(name.as_ref(), self.bump));
     }
-    self.plugin_macros = Rc::new(macros);
+    self.set_plugin_macros(Rc::new(macros));
+  }
+
+  /// for the source of a table cell, where the macros of the document can be used
+  pub fn share_plugin_macros(&self, cell_lexer: &mut Self) {
+    cell_lexer.set_plugin_macros(Rc::clone(&self.plugin_macros));
+  }
+
+  fn set_plugin_macros(&mut self, macros: Rc<BumpVec<'arena, BumpString<'arena>>>) {
     for lexer in self.sources.iter_mut() {
-      lexer.plugin_macros = Rc::clone(&self.plugin_macros);
+      lexer.plugin_macros = Rc::clone(&macros);
     }
+    self.plugin_macros = macros;
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 20c8c96..7503bed 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -91,6 +91,7 @@ impl<'arena> Parser<'arena> {
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(loc.start);
+    self.lexer.share_plugin_macros(&mut cell_parser.lexer);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.ctx.max_include_depth = self.remaining_include_depth();
     cell_parser.cell_src = Some(self.doc_loc(SourceLocation {
-- 
2.43.0


From 8134a414c00b2a3bfc039687c1775a88fe33dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:24 +0000
Subject: [PATCH 90/99] fix: a comment block in front of the header ends at its
 own delimiter

---
 parser/src/tasks/parse_doc_header.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 4b03ba0..b44561a 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -68,7 +68,8 @@ impl<'arena> Parser<'arena> {
 
     let block_start = lines.consume_current().unwrap();
     let delimiter = block_start.current_token().unwrap().to_delimiter();
-    if lines.discard_until(Line::is_comment_block_delimiter) {
+    let ends_block = |line: &Line| delimiter.is_some_and(|delimiter| line.is_delimiter(delimiter));
+    if lines.discard_until(ends_block) {
       let end_delim = lines.consume_current().unwrap();
       return Ok(end_delim.first_loc());
     }
@@ -81,7 +82,7 @@ impl<'arena> Parser<'arena> {
         self.err_line("Unclosed comment block, started here", &block_start)?;
         return Ok(None);
       };
-      if next_lines.discard_until(Line::is_comment_block_delimiter) {
+      if next_lines.discard_until(ends_block) {
         let end_delim = next_lines.consume_current().unwrap();
         *lines = next_lines;
         return Ok(end_delim.first_loc());
-- 
2.43.0


From 76796887ac14f6a22ff7325548ddda48cb817307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 91/99] fix: a marker of several stars starts an item where its
 text is empty

---
 core/src/regx.rs   |  5 -----
 parser/src/line.rs | 16 +++++++++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 1421970..a7b9c93 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -39,11 +39,6 @@ lazy_static! {
   pub static ref DIRECTIVE_INVALID_IFEVAL: Regex = Regex::new(r#"^ifeval::(\[(.*)\])\s*$"#).unwrap();
 }
 
-// line
-lazy_static! {
-  pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s*(\*+)( |\t)+.+"#).unwrap();
-}
-
 // keyboard macro
 lazy_static! {
   pub static ref KBD_MACRO_KEYS: Regex = Regex::new(r"(?:\s*([^\s,+]+|[,+])\s*)").unwrap();
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 1268ed1..38fc0f2 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -821,9 +821,19 @@ impl<'arena> Line<'arena> {
         Some(ListMarker::Dash)
       }
       Star if second.kind(Star) => {
-        let src = self.reassemble_src();
-        let captures = regx::REPEAT_STAR_LI_START.captures(&src)?;
-        Some(ListMarker::Star(captures.get(1).unwrap().len() as u8))
+        let stars = self
+          .iter()
+          .skip(offset)
+          .take_while(|t| t.kind == Star)
+          .count();
+        // what follows can be empty in the source, as for other markers
+        if self.nth_token(offset + stars).kind(Whitespace)
+          && self.nth_token(offset + stars + 1).is_some()
+        {
+          Some(ListMarker::Star(stars as u8))
+        } else {
+          None
+        }
       }
       CalloutNumber if second.kind(Whitespace) && token.lexeme.as_bytes()[1] != b'!' => {
         Some(ListMarker::Callout(token.parse_callout_num()))
-- 
2.43.0


From d9d248aa7a25c38627e90fb4f205a9bf0a844228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 92/99] fix: a paragraph of references to empty attributes
 doesn't end what it is in

---
 parser/src/tasks/parse_block.rs   | 7 +++++--
 parser/src/tasks/parse_section.rs | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5f3228e..d5e78c2 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -488,11 +488,14 @@ impl<'arena> Parser<'arena> {
 
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
+    let (start, num_lines) = (lines.first_loc(), lines.len());
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
+    // can be empty when parsing empty desc list principal, but not if there are
+    // lines with nothing but references to attributes that are empty
+    let consumed = start.filter(|_| lines.len() < num_lines);
+    let Some(loc) = inlines.loc().or(consumed.map(MultiSourceLocation::from)) else {
       self.restore_lines(lines);
       return Ok(None);
     };
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 05db352..25649f2 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -143,7 +143,7 @@ impl<'arena> Parser<'arena> {
               "{} sections do not support nested sections",
               special_sect.to_str()
             ),
-            subsection.heading.first_loc().unwrap(),
+            subsection.heading.first_loc().unwrap_or(subsection.meta.start_loc),
           )?;
         }
       }
-- 
2.43.0


From 2987d9831d8f0e359d04b61d2e056e19caebc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 93/99] fix: a discrete heading can be written with hashes

---
 parser/src/tasks/parse_block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d5e78c2..36916a1 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -244,7 +244,10 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    line.consume_current(); // `==`, or the first `#`
+    while line.current_is(Hash) {
+      line.consume_current();
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
-- 
2.43.0


From 259a7e845fdbaa715850638a9eaa65eeca603032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 94/99] fix: a quote in Markdown's style keeps its title and
 attributes where it ends in whose it is

---
 parser/src/tasks/parse_block.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 36916a1..879cad6 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -327,8 +327,15 @@ impl<'arena> Parser<'arena> {
     self.quoted_lines = outer_quote;
     self.restore_lines(rest);
 
-    if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
-      return Ok(Some(blocks.pop().unwrap()));
+    if blocks.len() == 1
+      && blocks[0].context == Context::QuotedParagraph
+      && (meta.is_empty() || blocks[0].meta.is_empty())
+    {
+      let mut quote = blocks.pop().unwrap();
+      if !meta.is_empty() {
+        quote.meta = meta;
+      }
+      return Ok(Some(quote));
     }
 
     Ok(Some(Block {
-- 
2.43.0


From 1932f589e3ea275a645e35ed1361a0322c7dfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 95/99] fix: a line that starts like the end of a fenced block
 but goes on doesn't end it

---
 parser/src/tasks/parse_block.rs       | 2 +-
 parser/src/tasks/parse_inlines/mod.rs | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 879cad6..724616c 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -84,7 +84,7 @@ impl<'arena> Parser<'arena> {
 
     match first_token.kind {
       DelimiterLine
-        if self.ctx.delimiter.is_some() && self.ctx.delimiter == first_token.to_delimiter() =>
+        if lines.current_satisfies(|l| self.ctx.delimiter.is_some_and(|d| l.is_delimiter(d))) =>
       {
         self.restore_lines(lines);
         return Ok(None);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index e139785..7e97a5f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1083,10 +1083,7 @@ impl<'arena> Parser<'arena> {
 
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
-    || (
-      self.ctx.delimiter.is_some()
-      && self.ctx.delimiter == line.current_token().and_then(|t| t.to_delimiter())
-    )
+    || self.ctx.delimiter.is_some_and(|d| line.is_delimiter(d))
   }
 
   /// neither verbatim text nor what begins amid a line has comments
-- 
2.43.0


From 5dc71e7e9e63373f7ac100740f69bc85eac29799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 96/99] fix: a line in a fenced block that names a language
 doesn't end it after an empty line

---
 parser/src/lexer/root_lexer.rs   | 8 +++++++-
 parser/src/lexer/source_lexer.rs | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 7a0048e..bb50818 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -297,7 +297,13 @@ impl<'arena> RootLexer<'arena> {
       }
       cur_source = &self.sources[*prev_idx as usize];
     }
-    cur_source.at_delimiter_line()
+    // backticks that name a language can only open a block
+    match cur_source.at_delimiter_line() {
+      Some((len, byte)) if matches!(cur_source.nth(len), Some(b'\n' | b'\r') | None) => {
+        Some((len, byte))
+      }
+      _ => None,
+    }
   }
 
   pub fn is_eof(&self) -> bool {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 59bd312..e91a194 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -279,7 +279,7 @@ impl<'arena> SourceLexer<'arena> {
     self.peek_is(b'\n') || self.peek_is(b'\r')
   }
 
-  fn nth(&self, n: u32) -> Option<u8> {
+  pub(super) fn nth(&self, n: u32) -> Option<u8> {
     self.src.get((self.pos + n) as usize).copied()
   }
 
-- 
2.43.0


From 91a282423433a19268b1083313f0ca8c7bd756e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 97/99] fix: nothing that begins in a text goes on behind the
 end of the block it is in

---
 parser/src/tasks/parse_block.rs       | 2 +-
 parser/src/tasks/parse_inlines/mod.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 724616c..40cebc7 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -221,7 +221,7 @@ impl<'arena> Parser<'arena> {
     }
   }
 
-  fn split_off_after_paragraph(
+  pub(crate) fn split_off_after_paragraph(
     &self,
     lines: &mut ContiguousLines<'arena>,
   ) -> ContiguousLines<'arena> {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 7e97a5f..20f83fc 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -12,7 +12,13 @@ impl<'arena> Parser<'arena> {
     &mut self,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<InlineNodes<'arena>> {
-    self.parse_inlines_until(lines, &[])
+    // nothing that begins in a text goes on behind where the text ends
+    let mut rest = self.split_off_after_paragraph(lines);
+    let inlines = self.parse_inlines_until(lines, &[])?;
+    while let Some(line) = rest.consume_current() {
+      lines.push(line);
+    }
+    Ok(inlines)
   }
 
   pub(crate) fn parse_inlines_until(
-- 
2.43.0


From c76eef89affb1dd1169dd746b1017b0ae7a4a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:15 +0000
Subject: [PATCH 98/99] fix: attributes behind an anchor that isn't valid
 belong to the block, and are no text

---
 parser/src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 7503bed..c3781d1 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -380,6 +380,7 @@ impl<'arena> Parser<'arena> {
     let start_loc = lines.current_token().unwrap().loc;
     let mut attrs = MultiAttrList::new_in(self.bump);
     let mut title = None;
+    let num_lines = lines.len();
     if !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
@@ -401,7 +402,7 @@ impl<'arena> Parser<'arena> {
           line.discard_assert(TokenKind::OpenBracket);
           let Some(anchor) = self.parse_block_anchor(&mut line)? else {
             self.err_line_starting("Invalid block anchor", first.loc)?;
-            return Ok(ChunkMeta::new(attrs, title, start_loc));
+            continue;
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
@@ -411,8 +412,8 @@ impl<'arena> Parser<'arena> {
           }
           attrs.push(anchor_attrs);
         }
-        // consume trailing comment lines for valid meta
-        Some(line) if line.is_comment() && (!attrs.is_empty() || title.is_some()) => {
+        // consume trailing comment lines
+        Some(line) if line.is_comment() && lines.len() < num_lines => {
           lines.consume_current();
         }
         _ => break,
-- 
2.43.0


From 62a80620cf57855a2960e5cbd4e55c57a9725cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:02 +0000
Subject: [PATCH 99/99] fix: a heading that a book ends with is in the output

---
 parser/src/tasks/parse_book.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 1f5e0c5..e415bcd 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -10,7 +10,7 @@ impl<'arena> Parser<'arena> {
     while let Some(special) = self.parse_special_sect()? {
       opening_special_sects.push(special);
     }
-    if self.lexer.is_eof() && !opening_special_sects.is_empty() {
+    if self.at_end() && !opening_special_sects.is_empty() {
       return Ok(Some(DocContent::Sections(Sectioned {
         preamble: None,
         sections: opening_special_sects,
@@ -55,7 +55,7 @@ impl<'arena> Parser<'arena> {
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() {
+    if self.at_end() {
       return Ok(Some(DocContent::Blocks(blocks)));
     }
 
@@ -85,6 +85,10 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  fn at_end(&self) -> bool {
+    self.peeked_lines.is_none() && self.lexer.is_eof()
+  }
+
   fn parse_special_sect(&mut self) -> Result<Option<Section<'arena>>> {
     let Some(mut peeked) = self.peek_section()? else {
       return Ok(None);
-- 
2.43.0

