From 3bd411aed413cff78cf30a5aec5629c99dc96c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 01/19] fix: report a regexp that ends at end of input instead
 of panicking

---
 crates/joker/src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..d1fee33 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -248,7 +248,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -278,7 +280,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
-- 
2.43.0


From 9f81e38bdc794ff92f4b2887d144e4619a042619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 02/19] fix: report a braced unicode escape that ends at end of
 input instead of panicking

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index d1fee33..b46af5e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -453,7 +453,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From a6f95c0b7ed8031a3758f5feadc4adeaef802e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 03/19] fix: reject braced unicode escapes above U+10FFFF
 instead of overflowing

---
 crates/joker/src/lexer.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index b46af5e..83b69e8 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -10,16 +10,6 @@ use error::Error;
 use result::Result;
 use std::collections::VecDeque;
 
-fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
-}
-
 struct SpanTracker {
     start: Posn
 }
@@ -447,17 +437,19 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_unicode_escape_seq(&mut self, s: &mut String) -> Result<u32> {
         if self.matches('{') {
             s.push('{');
-            let mut digits = Vec::with_capacity(8);
-            digits.push(self.read_hex_digit_into(s)?);
+            let mut code_point = self.read_hex_digit_into(s)?;
             self.read_until_with(&|ch| ch == '}', &mut |this| {
-                digits.push(this.read_hex_digit_into(s)?);
+                code_point = (code_point << 4) + this.read_hex_digit_into(s)?;
+                if code_point > 0x10FFFF {
+                    return Err(Error::IllegalUnicode(code_point));
+                }
                 Ok(())
             })?;
             if !self.matches('}') {
                 return Err(Error::MissingHexDigits);
             }
             s.push('}');
-            Ok(add_digits(digits, 16))
+            Ok(code_point)
         } else {
             let mut place = 0x1000;
             let mut code_point = 0;
-- 
2.43.0


From 0cb4aa7a3e69550a8675bcc6d4bcec86ce0a9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 04/19] fix: reject line terminators inside regexp character
 classes

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 83b69e8..65d35e5 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -280,6 +280,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 71955b07a7a509ab62cd26322e84fe6673ccfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 05/19] fix: treat U+2007 and U+2008 as whitespace

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From 7fb15b8007f867cf6fe7b2a7275dcc76e8ffbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 06/19] fix: only accept escapes of identifier characters in
 words

---
 crates/joker/src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 65d35e5..2898ba6 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -551,9 +551,11 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
+        let first = s.text.is_empty();
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if first && ch.is_es_identifier_start() ||
+                        !first && ch.is_es_identifier_continue() => { s.text.push(ch); Ok(()) }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From ef04681ee64d9344c0ea298c08cafbe6c620e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 07/19] fix: reject an escaped identifier right after a number

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2898ba6..ed2928a 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -394,7 +394,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch.is_es_identifier_start() || ch == '\\' => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From e3086a584611d2a10f2899cde4ef23f4045b58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 08/19] fix: recognise --> after a block comment that contains
 a line terminator

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index ed2928a..7e5de6b 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -601,7 +601,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From c0b5939b4ed77536eac84bab227925230d58fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 09/19] fix: tokenize => as an arrow

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 7e5de6b..c65c28b 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -671,6 +671,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From ab179e5d1adf3e6fc06eef8469042d3e8acdcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 10/19] fix: a script extends to the end of the input

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..291e190 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let body = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(body)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From 631fff6358ced5323d6bbf201d66c0a7d1a27c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 11/19] fix: a rest element with a location is an assignment
 pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From c517e8e4c4800b62b0c4374489bb8a5e098b47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 12/19] fix: the location of a declarator covers its
 initializer

---
 crates/easter/src/decl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/decl.rs b/crates/easter/src/decl.rs
index bf9b341..5b17f7f 100644
--- a/crates/easter/src/decl.rs
+++ b/crates/easter/src/decl.rs
@@ -65,8 +65,11 @@ impl DtorExt for Dtor {
 
     fn from_init_opt(lhs: Patt<Id>, rhs: Option<Expr>) -> Result<Dtor, Patt<Id>> {
         match (lhs, rhs) {
-            (Patt::Simple(id), rhs) => {
-                Ok(Dtor::Simple(*id.tracking_ref(), id, rhs))
+            (Patt::Simple(id), None) => {
+                Ok(Dtor::Simple(*id.tracking_ref(), id, None))
+            }
+            (Patt::Simple(id), Some(rhs)) => {
+                Ok(Dtor::from_simple_init(id, rhs))
             }
             (lhs @ Patt::Compound(_), None) => Err(lhs),
             (Patt::Compound(patt), Some(rhs)) => {
-- 
2.43.0


From 7a94a1d540e211ea45d95220a24763fa95fce477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 13/19] fix: members of a new expression belong to the operand
 of the new before it

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 291e190..6885d27 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1390,7 +1390,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let mut base = self.arguments()?.append_to_new(new, base);
+                while let Some(deref) = self.deref_opt()? {
+                    base = deref.append_to(base);
+                }
+                base
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
-- 
2.43.0


From 9031ff934fb23b547a79aed0bf924d90258bb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 14/19] fix: a slash after a string at the start of a body is a
 division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6885d27..3af02d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From b843f8babaa6887df0e6f08ebbae083773eefc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 15/19] fix: a slash after let in the head of a for is a
 division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3af02d9..1e42268 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -778,7 +778,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'let' .
     fn for_let(&mut self) -> Result<Stmt> {
         let let_token = self.reread(TokenData::Identifier(Name::Atom(Atom::Let)));
-        if !self.peek()?.first_binding() {
+        if !self.peek_op()?.first_binding() {
             self.lexer.unread_token(let_token);
             return self.for_expr();
         }
-- 
2.43.0


From 97f54a4d84d702c1e4f65becf3bbedc67bc105e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 16/19] fix: break and continue may be the last word of a
 script

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From 6ed40f413640e2b6fda68776562e253cd901d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 17/19] fix: the object of a for-in may be a comma expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e42268..a073d75 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -922,7 +922,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From ed6e8ee890631fb3c3f23b5132bd31ebef629def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 18/19] fix: the pragma of a directive does not include its
 quotes

---
 crates/easter/src/stmt.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..c3163da 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -128,11 +128,17 @@ pub struct Dir {
 
 impl Dir {
     pub fn pragma(&self) -> &str {
-        if let Some(ref source) = self.string.source {
-            source
-        } else {
-            &self.string.value
+        let text: &str = match self.string.source {
+            Some(ref source) => source,
+            None => { return &self.string.value; }
+        };
+        // the source of a string literal includes its quotes
+        for &quote in &['"', '\''] {
+            if text.len() >= 2 && text.starts_with(quote) && text.ends_with(quote) {
+                return &text[1..text.len() - 1];
+            }
         }
+        text
     }
 }
 
-- 
2.43.0


From 0f618ab1990365242ebd2926d1197d51d5400558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:03 +0000
Subject: [PATCH 19/19] fix: computed property names are not read as plain ones

---
 crates/estree/src/obj.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 338f081..8f93546 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -18,6 +18,10 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        // easter has no computed property names
+        if self.contains_key("computed") && self.extract_bool("computed")? {
+            return type_error("property name that is not computed", Ty::Object);
+        }
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
-- 
2.43.0

