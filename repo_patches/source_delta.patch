From cbff0eb46b39263e803a6b2d89c8796b1508d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 01/11] fix: resolve with-variables by name rather than by span
 of another template

A variable introduced by a with block was compared by slicing the source of
whichever template was executing with a span of the template that introduced
it, so a plain include inside a with block could not see the variable or
panicked on an out of bounds slice.
---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..e36075f 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -32,7 +32,7 @@ impl std::fmt::Debug for State<'_> {
         match self {
             Self::ValueFn(_) => f.debug_tuple("ValueFn").field(&(..)).finish(),
             Self::Scope(scope) => f.debug_tuple("Scope").field(scope).finish(),
-            Self::Var(ident, value) => f.debug_tuple("Var").field(ident).field(value).finish(),
+            Self::Var(name, value) => f.debug_tuple("Var").field(name).field(value).finish(),
             Self::Loop(state) => f.debug_tuple("Loop").field(state).finish(),
             Self::Boundary => write!(f, "Boundary"),
         }
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if source[v.first().access.span()] == **name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From c45d7cc4fe085d5b006142e3a2399eb3d513116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 02/11] fix: end a string literal at the quote after an escaped
 backslash

Only the previous character was considered when deciding whether a quote is
escaped, so "a\\\\" was reported as an undelimited string.
---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..3972bf3 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = !escaped && c == '\\';
                 }
             }
         }
-- 
2.43.0


From 78a8cd6cb71ea529936da9c624bbfb7ca4d73bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 03/11] fix: evaluate a missing optional member of a loop
 variable to none

Previously the lookup carried on to the enclosing scopes, so the expression
either failed with a not found error or picked up a shadowed variable.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From af9888c471f102f848c919b92029c10ac6c6f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 04/11] fix: compute the location of an error from byte offsets

Line starts were accumulated using display widths, so after any tab, carriage
return or non-ASCII character errors pointed at the wrong line and column.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..c01ff95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
-- 
2.43.0


From 0697a332b9de94cb45170ab812e9df1e05b60ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 05/11] fix: report the location of an invalid digit after a
 sign

The span of a signed literal starts at the sign and the digits need not follow
it directly, so the reported location was that of an earlier character.
---
 src/compile/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..32ce1f6 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -682,7 +682,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    let m = span.n - digits.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From f3bbd533abaa4f74d91a0a3ed8ed8a77d7b1265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 06/11] fix: never trim past the start of the raw template

With an end delimiter that ends in whitespace, trimming the template before a
tag could move past the previous tag and panic on an invalid range.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 3972bf3..afc2f14 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From 10318f58afee0e0bd92cdadaf413589148e627f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 07/11] fix: accept empty comments

The lexer yields no raw token between adjacent comment tags, which the parser
rejected as a syntax error.
---
 src/compile/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 32ce1f6..2aceebb 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,9 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    if !self.is_next(Token::EndComment)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From a7d8998bd2cecf8f620765a7b0f1a0dc45e8235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 08/11] fix: do not lex a trim marker as part of a number

A number directly followed by an end tag with a trim marker, for example
{{ 1-}}, was reported as an invalid literal.
---
 src/compile/lex.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index afc2f14..9dcbf36 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -386,11 +386,16 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         }
     }
 
-    fn lex_number<I>(&mut self, iter: I) -> (Token, usize)
+    fn lex_number<I>(&mut self, mut iter: I) -> (Token, usize)
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        // The trim marker of an end tag like `-}}` is not part of the number.
+        let is_tag = |j, c| c == '-' && self.engine.searcher.starts_with(self.source, j).is_some();
+        let j = iter
+            .find(|&(j, c)| !is_number(c) || is_tag(j, c))
+            .map_or(self.source.len(), |(j, _)| j);
+        (Token::Number, j)
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0


From 20851abad12d7a89787352227a0d639a772f3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 09/11] fix: allow a number literal after the in keyword

The lexer stayed in path mode after the loop variables, so in
{% for i in 3 | range %} the number was lexed as an index and rejected.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 9dcbf36..056626f 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From 0426786570d87be609b3b1fbda8c5afeab57bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 10/11] fix: evaluate a missing optional member of loop to none

---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..7c3af39 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Owned(Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From 6938e64eb38b8ad39c1b04a0319ce6efd36b016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 11/11] fix: do not underline errors with a formatting width

Formatting widths are limited to 16 bits in recent versions of the standard
library, so displaying an error beyond column 65535 panicked.
---
 src/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index c01ff95..e5f6028 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -253,11 +253,12 @@ impl Pretty {
         let num = (self.ln + 1).to_string();
         let col = self.col + 1;
         let pad = display_width(&num);
-        let align = self.col + self.width;
 
         let z = "";
         let pipe = "|";
         let equals = "=";
+        // Not a formatting width because those are limited to 16 bits.
+        let indent = " ".repeat(self.col);
         let underline = "^".repeat(self.width);
         let extra = "-".repeat(3_usize.saturating_sub(self.width));
         let name = name.unwrap_or("<anonymous>");
@@ -268,7 +269,7 @@ impl Pretty {
             "\n\n {z:pad$}--> {name}:{num}:{col}\
              \n {z:pad$} {pipe}\
              \n {num:>} {pipe} {text}\
-             \n {z:pad$} {pipe} {underline:>align$}{extra}\
+             \n {z:pad$} {pipe} {indent}{underline}{extra}\
              \n {z:pad$} {pipe}\
              \n {z:pad$} {equals} reason: {reason}\n",
         )
-- 
2.43.0

