From 77ec14f7e3ef8aed17171e0b35b6fcd45b0f8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 01/25] fix: lex a number that ends at the end of the input

---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..980c2f4 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -26,8 +26,9 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
 
+    let position = position.unwrap_or(code.len());
     let number_str = &code[0..position];
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
-- 
2.43.0


From ef6d533751ca48d149f55598dda6a41f69e7cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/25] fix: slice string literals by byte offset, not by
 character index

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 980c2f4..2dbccc4 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -69,7 +69,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
-- 
2.43.0


From 86ad4ae00bc75faf311fcffcb12cf20adef5e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/25] fix: do not cut the one-character ellipsis in the
 middle

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 2dbccc4..54ec85a 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -125,7 +125,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
-- 
2.43.0


From 4032c793732b620b5bdf4231b1c9aaa70dc9e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 04/25] fix: take a whole character as symbol

---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 54ec85a..c69c697 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -364,7 +364,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len = code.chars().next().map_or(0, char::len_utf8);
+        let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 33bc9da4b0c45cea7ef7495e3cb30d21eb752b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/25] fix: an escaped colon in a string does not escape the
 quote after it

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index c69c697..f5cbc8c 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -78,7 +78,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From 9771ceb4fa9ff8f683172593ed2e97bb7b6b0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/25] fix: treat carriage returns as blank space

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index f5cbc8c..6cd1f90 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -109,7 +109,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From 97cbefbe00a98e39dc7a0d00a67d75652e6f459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 07/25] fix: a number directly followed by an ellipsis does not
 take its first dot

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 6cd1f90..b03e52e 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -21,7 +21,7 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
         if char >= '0' && char <= '9' {
             return false;
         };
-        if !has_dot_been_used && char == '.' {
+        if !has_dot_been_used && char == '.' && !code[index..].starts_with("...") {
             has_dot_been_used = true;
             return false;
         };
-- 
2.43.0


From 7d15be20b8fa69fa2de86f0c8f0ff852efa1abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/25] fix: recognise keywords only as whole words

---
 src/lexer/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index b03e52e..d75f09b 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -38,11 +38,18 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+/// Checks if the code starts with the given word, and the word does not go on after it.
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word).map_or(false, |rest| {
+        !rest.starts_with(|char: char| char == '_' || char.is_ascii_alphanumeric())
+    })
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -135,9 +142,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -147,7 +154,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From c3367504072071c15da1b17c83fdaaa5a1bfcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 09/25] fix: allow digits in identifiers after the first
 character

---
 src/lexer/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index d75f09b..70e515b 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -62,9 +62,12 @@ fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
 fn parse_identifier(code: &str) -> Option<&str> {
     let non_ident_position = code
         .chars()
-        .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
+        .enumerate()
+        .take_while(|(index, char)| {
+            *char == '_'
+                || (*char >= 'a' && *char <= 'z')
+                || (*char >= 'A' && *char <= 'Z')
+                || (*index > 0 && *char >= '0' && *char <= '9')
         })
         .count();
 
-- 
2.43.0


From 89569cf00a20102af30db424920ad1d65d794d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 10/25] fix: advance positions over newlines and count columns
 in characters

---
 src/lexer/position.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..6e6692e 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -41,18 +41,22 @@ impl PartialOrd for Position {
 impl Add<&str> for Position {
     type Output = Position;
     fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+        let mut position = self;
+        position += rhs;
+        position
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        for char in rhs.chars() {
+            if char == '\n' {
+                self.line += 1;
+                self.column = 1;
+            } else {
+                self.column += 1;
+            }
+        }
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
-- 
2.43.0


From 55655b8519f770647dbe4aee0982331c25071b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 11/25] fix: a token that spans lines keeps its statement
 together

---
 src/lexer/range.rs               | 4 ++++
 src/parser/statement_iterator.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..c3c0075 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,7 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 37e12cfecd22efbc12bf48f694ca38079a3ea216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 12/25] fix: skip a run of ellipses without recursion

---
 src/parser/statement_iterator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index c3c0075..57c6fe6 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -109,15 +109,20 @@ impl Iterator for StatementIterator {
             None => {}
         };
 
+        while self
+            .tokens_iter
+            .next_if(|t| {
+                t.token_type == TokenType::Ellipsis && t.range.start_line() == self.current_line
+            })
+            .is_some()
+        {
+            self.tokens_iter
+                .peek()
+                .map(|t| self.current_line = t.range.start_line());
+        }
+
         match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
             None | Some((TokenType::Comma, _)) => None,
-            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
-                self.tokens_iter.next();
-                self.tokens_iter
-                    .peek()
-                    .map(|t| self.current_line = t.range.start_line());
-                self.next()
-            }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
                     self.current_line = range.end_line();
-- 
2.43.0


From 2a9b84e86bd74778bcb65ddb1221ec2284ebf9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 13/25] fix: skip separators of empty statements together, in
 any order

---
 src/parser/statement_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 57c6fe6..e228bd8 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -64,7 +64,7 @@ impl StatementIterator {
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
-- 
2.43.0


From 5979700852377deb401c79ec4881a22b89bfb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 14/25] fix: comments are not part of any statement

---
 src/parser/statement_iterator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index e228bd8..19af8b8 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -11,6 +11,15 @@ pub struct StatementIterator {
 
 impl StatementIterator {
     pub fn new(tokens: Vec<Token>) -> StatementIterator {
+        let tokens: Vec<Token> = tokens
+            .into_iter()
+            .filter(|t| {
+                !matches!(
+                    t.token_type,
+                    TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+                )
+            })
+            .collect();
         StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
-- 
2.43.0


From b78a6af7ea72f0fb0ea0729ea74b0adc2aa98459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 15/25] fix: lex a question mark as QuestionMark

---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 70e515b..b40d916 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -255,7 +255,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From 99fe3b1952bbd2cd6fc05829415712305568b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 16/25] fix: report an unexpected token after a variable
 instead of panicking

---
 src/parser/statements/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..8c86598 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -216,8 +216,8 @@ pub(crate) fn parse_statement(
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
 
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            // Anything else can only be an assignment with a wrong token in place of its `R`
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From 283e98b495781a53e8b3959533737215069fb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 17/25] fix: report MAEK as unexpected instead of panicking

---
 src/parser/expression/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..9d1b2ac 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,8 +350,8 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
+                    // Type Cast operation, which is not supported yet
+                    Keywords::MAEK => Err(ASTErrorType::UnexpectedToken(first_token)),
 
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
-- 
2.43.0


From ef49f7f98cb508920983b49f0379e4b87bbd30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 18/25] fix: HAI does not swallow the statement after it

---
 src/parser/statements/hai.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..014c569 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.by_ref().collect(),
         })
     }
 }
-- 
2.43.0


From 22e9222acfc6b57721d5560f347f8a4f5378e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 19/25] fix: WTF and HOW IZ I do not swallow the statement
 after them

---
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From 5df2189f825138194ffa2dd9c17abb9a87d18c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 20/25] fix: a block may be empty

---
 src/parser/blocks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..89c283c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -134,6 +134,9 @@ fn parse_block(
     should_stop_at_token: &dyn Fn(&Token) -> bool,
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
+    if statement_iterator.peek().map_or(false, should_stop_at_token) {
+        return block;
+    }
     loop {
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
-- 
2.43.0


From 837332776f255226ea2f1e2189aa2a3197ce38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 21/25] fix: left over tokens do not cost the statement after
 them

---
 src/parser/blocks.rs             | 5 ++++-
 src/parser/statement_iterator.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 89c283c..39e38fb 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -147,7 +147,10 @@ fn parse_block(
 
         statement_iterator
             .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+            .unwrap_or_else(|err| {
+                block.0.push_back(err.into());
+                statement_iterator.next_statement();
+            });
 
         match statement_iterator.peek() {
             Some(token) if should_stop_at_token(token) => break,
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 19af8b8..1289f5b 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -59,10 +59,11 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0


From 2b7dc4f6b9eabeab5bf59915e95ccff5fd5174ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 22/25] fix: an integer out of range does not become other
 numbers

---
 src/lexer/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index b40d916..895a7f2 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -12,7 +12,8 @@ pub use token::{NumberToken, Token, TokenError, TokenType, TokenValue};
 #[cfg(test)]
 mod tests;
 
-fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
+/// Finds the longest text that looks like a number, and whether there is a dot in it.
+fn scan_number(code: &str) -> (&str, bool) {
     let mut has_dot_been_used = false;
     let position = code.chars().enumerate().position(|(index, char)| {
         if index as i32 == 0 && (char == '-' || char == '+') {
@@ -29,7 +30,11 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     });
 
     let position = position.unwrap_or(code.len());
-    let number_str = &code[0..position];
+    (&code[0..position], has_dot_been_used)
+}
+
+fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
+    let (number_str, has_dot_been_used) = scan_number(code);
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
     } else {
@@ -374,7 +379,13 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let symbol_len = code.chars().next().map_or(0, char::len_utf8);
+        // A number that can't be represented is kept whole, as its parts would be other numbers
+        let (number_str, _) = scan_number(code);
+        let symbol_len = if number_str.contains(|char: char| char.is_ascii_digit()) {
+            number_str.len()
+        } else {
+            code.chars().next().map_or(0, char::len_utf8)
+        };
         let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
-- 
2.43.0


From 34fe0c63a69d2289a8d37b8f524b093df127cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 23/25] fix: implement the iteration over the errors of a block

---
 src/parser/blocks.rs | 54 +++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 39e38fb..6432dc0 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The nodes that are yet to be visited, of every block from the first one to the current one
+    blocks: Vec<std::collections::vec_deque::Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            blocks: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +73,31 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
     type Item = ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
+        while let Some(nodes) = self.blocks.last_mut() {
+            match nodes.next() {
+                Some(Node::ASTError(error)) => return Some(error.clone()),
+                Some(node) => {
+                    let inner_blocks = node.get_inner_block().unwrap_or_default();
+                    self.blocks
+                        .extend(inner_blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+                None => {
+                    self.blocks.pop();
+                }
+            }
+        }
 
-        todo!()
+        None
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From 15ffbbf443dd6912222868d4239c51ec8edca1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 24/25] fix: report a missing name or argument of a call as
 documented

---
 src/parser/statements/i_is.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/i_is.rs b/src/parser/statements/i_is.rs
index e3f24c5..3f8634b 100644
--- a/src/parser/statements/i_is.rs
+++ b/src/parser/statements/i_is.rs
@@ -44,7 +44,11 @@ impl IIz {
         tokens: &mut StatementIterator,
     ) -> Result<IIz, ASTErrorType> {
         let name = match tokens.next() {
-            None => return Err(ASTErrorType::IIz(IIzError::MissingName(first_token))),
+            None
+            | Some(Token {
+                token_type: TokenType::Keyword(Keywords::MKAY),
+                ..
+            }) => return Err(ASTErrorType::IIz(IIzError::MissingName(first_token))),
             Some(token) => VariableAccess::parse(token, tokens)?,
         };
 
@@ -57,8 +61,12 @@ impl IIz {
                 None => break,
             };
             let first_expression_token = match tokens.next() {
+                None
+                | Some(Token {
+                    token_type: TokenType::Keyword(Keywords::MKAY),
+                    ..
+                }) => return Err(ASTErrorType::IIz(IIzError::MissingArgument(yr_token))),
                 Some(token) => token,
-                None => return Err(ASTErrorType::IIz(IIzError::MissingArgument(yr_token))),
             };
             arguments.push_back(ASTExpression::parse(first_expression_token, tokens)?);
             if tokens
-- 
2.43.0


From 074d88fdf909c74d2efe88fc8617fb6a7f3a6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 25/25] fix: report an invalid loop operation or condition as
 documented

---
 src/parser/statements/im_in_yr.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/im_in_yr.rs b/src/parser/statements/im_in_yr.rs
index 1ed8e48..aba30e7 100644
--- a/src/parser/statements/im_in_yr.rs
+++ b/src/parser/statements/im_in_yr.rs
@@ -220,7 +220,10 @@ fn parse_conditional(
                 ..
             },
         ) => Some(LoopCondition::WILE(parse_conditional!(token)?)),
-        _ => None,
+        _ => match tokens.next() {
+            None => None,
+            Some(token) => return Err(ImInYrError::InvalidConditional(token).into()),
+        },
     };
 
     Ok(condition)
@@ -247,7 +250,17 @@ fn parse_iteration_operation(
                 ..
             },
         ) => LoopOperation::NERFIN(token),
-        _ => return Ok(None),
+        _ => {
+            return match tokens.next_if(|t| {
+                !matches!(
+                    t.token_type,
+                    TokenType::Keyword(Keywords::TIL | Keywords::WILE)
+                )
+            }) {
+                None => Ok(None),
+                Some(token) => Err(ImInYrError::InvalidOperation(token).into()),
+            }
+        }
     };
 
     match tokens.next() {
-- 
2.43.0

