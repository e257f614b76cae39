From 48bd1374af2ee585ee5f7ed64a3ea133548ec43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 01/42] Add guarded hook for runtime monitors (cfg pcr_verif)

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 50cf17e..dc6a452 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,11 @@ extern crate core;
 
 mod parser;
 
+/* Runtime monitors for verification, only built with '--cfg pcr_verif' */
+#[allow(unexpected_cfgs)]
+#[cfg(pcr_verif)]
+mod verif { include!(concat!(env!("PCR_VERIF_DIR"), "/mod.rs")); }
+
 use parser::nodes::{ASTNode};
 use crate::parser::expressions::Expressions;
 use crate::parser::statements::Statements;
@@ -10,6 +15,10 @@ use parser::tokens::Token;
 use crate::parser::parser::{Parser, PythonCoreParser};
 
 fn main() {
+    #[allow(unexpected_cfgs)]
+    #[cfg(pcr_verif)]
+    if verif::run() { return; }
+
     println!("PythonCore written in Rust!");
 
     let lexer = Box::new( PythonCoreTokenizer::new("__init__".to_string()) );
-- 
2.43.0


From e6cb162d5b7891e25bc0c2e29207b58532c5a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 02/42] fix: a number starting with 0 no longer swallows the
 next character

---
 src/parser/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..b1886f6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -741,9 +741,15 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From 9a06e3c470bb7ac7060287f16a1f185a9b13f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 03/42] fix: an exponent needs a digit, otherwise 'e' is not
 part of the number

---
 src/parser/tokenizer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b1886f6..e8117e7 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -791,8 +791,9 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
-                        match self.source_buffer.get_char() {
-                            'e' | 'E' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( 'e' | 'E', '0' ..= '9', _ ) |
+                            ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                                 non_zero = false;
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
@@ -861,8 +862,9 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => false
                 } {};
-                match self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) |
+                    ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
@@ -946,8 +948,9 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {}
                 }
-                match &self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) |
+                    ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
-- 
2.43.0


From b555bcedf9ac7f939c0b1f4990303109d7aa600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 04/42] fix: a blank or comment line no longer hides the next
 line's indentation and newline

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index e8117e7..853bd1b 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From 37b0d1d3e5de72454b935459c0a2c2e09ef6ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 05/42] fix: a dedent to a column no open block has is an error

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 853bd1b..2a8855d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -98,7 +98,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 4bd740c4bf2a52d43e0ff3dd1640193bbd4faac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 06/42] fix: newline trivia records the line break that was
 found

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 2a8855d..7620004 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -203,7 +203,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -220,7 +220,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From ea3a5a2462da924d97a94fe9659130569a7226f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 07/42] fix: a NUL character in the text is an error, not the
 end of the text

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7620004..a80ad44 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -172,7 +172,7 @@ impl Tokenizer for PythonCoreTokenizer {
 
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
-                    '\0' => {
+                    '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From 7eb3ca8822ba06f978ff0b3e51e52c18d22fdea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 08/42] fix: a backslash in a string keeps the next character
 inside the literal

---
 src/parser/tokenizer.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index a80ad44..5fc7b8b 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1020,6 +1020,12 @@ impl Tokenizer for PythonCoreTokenizer {
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
+                    ( '\\', '\0', _ ) => {
+                        buffer.push(self.source_buffer.get_char());
+                        let _ = self.source_buffer.advance();
+                        true
+                    },
+                    ( '\\', _ , _ ) |
                     ( '\r', '\n', _  ) => {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
@@ -1047,6 +1053,21 @@ impl Tokenizer for PythonCoreTokenizer {
                 buffer.push(self.source_buffer.get_char());
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
+                    '\\' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( _ , '\r', '\n' ) => {
+                                for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            },
+                            ( _ , '\0', _ ) => {
+                                buffer.push(self.source_buffer.get_char());
+                                let _ = self.source_buffer.advance();
+                            },
+                            _ => {
+                                for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            }
+                        }
+                        true
+                    },
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                     _ => {
                         if self.source_buffer.get_char() == quote {
-- 
2.43.0


From 69b132224c681f868ed3316cec222fdfccc43c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 09/42] fix: recognise the bytes literal prefixes

---
 src/parser/tokenizer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 5fc7b8b..d23551d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -627,7 +627,17 @@ impl Tokenizer for PythonCoreTokenizer {
                     "rf" |
                     "rF" |
                     "Rf" |
-                    "RF" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
+                    "RF" |
+                    "b" |
+                    "B" |
+                    "br" |
+                    "Br" |
+                    "bR" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
                         match self.source_buffer.peek_three_chars() {
                             ( '\'', '\'', '\'' ) |
                             ( '"', '"', '"' ) => {
-- 
2.43.0


From ff004d6e6b0f4ad18f1f07a9cd016421e77cb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 10/42] fix: trivia in front of an indent or dedent is kept

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d23551d..d22144c 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From e1e1e310aa966a2b35651da6d25fe0d1398b79e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 11/42] fix: a last line without line break ends with newline
 and dedents

---
 src/parser/tokenizer.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d22144c..0cbd027 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -8,6 +8,7 @@ pub struct PythonCoreTokenizer {
     token_start_position: u32,
     parenthesis: Vec<char>,
     is_at_beginning_of_line: bool,
+    is_line_open: bool,
     tab_size: u32,
     is_interactive: bool,
     pending: i32,
@@ -30,6 +31,7 @@ impl Tokenizer for PythonCoreTokenizer {
             token_start_position: 0u32,
             parenthesis: Vec::new(),
             is_at_beginning_of_line: true,
+            is_line_open: false,
             tab_size: 4,
             is_interactive: false,
             pending: 0,
@@ -66,6 +68,9 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                     };
 
+                    /* Blanks only in front of end of file is not an indented line */
+                    if self.source_buffer.get_position() >= self.source_buffer.count() { col = 0u32; }
+
                     match self.source_buffer.get_char() {
                         '#' | '\r' | '\n' | '\\' => {
                             if col == 0 && self.is_interactive {
@@ -159,8 +164,11 @@ impl Tokenizer for PythonCoreTokenizer {
                                     }
                                 } {};
                         match buffer.as_str().starts_with("# type:") {
-                            true => return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
-                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)))),
+                            true => {
+                                self.is_line_open = true;
+                                return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
+                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer))))
+                            },
                             _ => {
                                 trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
                             }
@@ -173,6 +181,18 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
                     '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
+                        /* Last line without a line break still ends with newline and dedents */
+                        if self.is_line_open && self.parenthesis.is_empty() {
+                            self.is_line_open = false;
+                            self.is_at_beginning_of_line = true;
+                            return Ok(Box::new(Token::Newline(
+                                self.source_buffer.get_position(),
+                                self.source_buffer.get_position(),
+                                match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) },
+                                ' ',
+                                ' '
+                            )))
+                        }
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
@@ -190,6 +210,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -207,6 +228,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -224,6 +246,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -264,6 +287,7 @@ impl Tokenizer for PythonCoreTokenizer {
         }
 
         self.token_start_position = self.source_buffer.get_position();
+        self.is_line_open = true;
 
         /* Handling all other valid tokens */
         match self.source_buffer.peek_three_chars() {
-- 
2.43.0


From 721e5a9221a9d13973c08992393466f50d18840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 12/42] fix: tuple and list displays accept a trailing ','

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..a50fb8d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -802,6 +802,8 @@ impl Expressions for PythonCoreParser {
                                         match &self.symbol {
                                             Ok(s4) => {
                                                 match &(**s4) {
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => { },
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
-- 
2.43.0


From 9ab83f3890283a3d91b61a8a552c8e5c86b650ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 13/42] fix: calls parse an argument list, not a subscript list

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a50fb8d..8457b35 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -843,7 +843,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From 965d92c5423cc4f17e44041cde78274024c07742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 14/42] fix: a slice without step no longer swallows the
 closing bracket, slices may be followed by ','

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8457b35..a017619 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -954,6 +954,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -962,7 +963,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
@@ -970,7 +971,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
-                                                    Token::PyColon(..) => { },
+                                                    Token::PyComa(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
                                             },
-- 
2.43.0


From 804b8cd823c26720eebba891339a0843ecc58ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 15/42] fix: subscript lists accept a trailing ','

---
 src/parser/expressions.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a017619..86c1beb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -915,8 +915,18 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
-                            true
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightBracket(..) => false,
+                                        _ => {
+                                            nodes_list.push( self.parse_expressions_subscript()? );
+                                            true
+                                        }
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript list expression!", self.lexer.get_position()))
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From 27024e37bfc189a4de237679707ede64a69e64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 16/42] fix: targets of for and del are expressions without
 comparison, so 'in' is not swallowed

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 86c1beb..23c8b3e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1012,7 +1012,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1035,7 +1035,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From 59d019e1bef240efcaf6c436e2627761788e1e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 17/42] fix: del accepts a trailing ','

---
 src/parser/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 23c8b3e..70196c9 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1028,7 +1028,10 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
-                                        Token::PyIn(..) => false,
+                                        Token::PyIn(..) |
+                                        Token::Newline(..) |
+                                        Token::PySemiColon(..) |
+                                        Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
                                             nodes_list.push(self.parse_expressions_star_expr()?);
-- 
2.43.0


From 0be35ff15e6d5197250817d69e48fd668fb66ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 18/42] fix: expression lists accept a trailing ',' in front of
 ':', '=' and a type comment

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 70196c9..e30fd1e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1078,6 +1078,9 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyColon(..) |
+                                        Token::PyAssign(..) |
+                                        Token::TypeComment(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         _ => {
-- 
2.43.0


From f64eb64f39b5272de3ffd7ffed1b84ff6c415d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 19/42] fix: accept the empty dictionary

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e30fd1e..87fa2de 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From 4029c40688b43802863e569f66a5f07f467bb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 20/42] fix: dictionaries with more than two entries

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 87fa2de..62b0b5f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1195,7 +1195,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From bd8b73f27e6a4f91bc82aed61e6ab7929ff453f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 21/42] fix: a parenthesised yield accepts a trailing ','

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 62b0b5f..bc64d9a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1527,6 +1527,8 @@ impl Expressions for PythonCoreParser {
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
+                                        Token::PyRightParen( .. ) |
+                                        Token::TypeComment( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From a42008c39f2120910401be427917f456b04abe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 22/42] fix: 'import' statements no longer recurse without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..678a90d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From d27406fafc80d77979f9161aba9b6afe2a33c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 23/42] fix: a parenthesised import list accepts a trailing ','

---
 src/parser/statements.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 678a90d..4563bce 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -941,8 +941,18 @@ impl Statements for PythonCoreParser {
                         Token::PyComa(..) => {
                             separators_list.push( s );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_statements_import_as_name()? );
-                            true
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightParen(..) => false,
+                                        _ => {
+                                            nodes_list.push( self.parse_statements_import_as_name()? );
+                                            true
+                                        }
+                                    }
+                                },
+                                _ => return Err(format!("SyntaxError at {}: Expecting symbol in import as names statement!", start_pos))
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From e0d4abb218eef443f9ddd02b314ff96f6df1475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 24/42] fix: the message of an assert follows a ',', not 'from'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 4563bce..a91b81c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1166,7 +1166,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From 16a29ff98db7f530a30b0f7855821268e997d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 25/42] fix: 'async def' parses a function, not a class

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index a91b81c..b92051e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1238,7 +1238,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From 618d7a7707dd2c459c36d1f82a346c6a070efcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 26/42] fix: conditions of if, elif and while accept ':='

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b92051e..0598244 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1270,7 +1270,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1329,7 +1329,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1391,7 +1391,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From 2144eb013212dbdc0164d6d7197c130ce3978036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 27/42] fix: 'with ... as ...' gives a with item, not an except
 clause

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 0598244..608afa0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1725,7 +1725,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From 18c39cbdcd3985de988c1be8466614e696824b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 28/42] fix: a decorator consumes its newline

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 51e55c14240b7c98a263441428a6a0f776b99d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 29/42] fix: the soft keyword 'match' used as a name no longer
 panics

---
 src/parser/blocks.rs   | 13 +------------
 src/parser/patterns.rs |  9 +++++----
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 9720da1..2e3de0c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -134,18 +134,7 @@ impl Blocks for PythonCoreParser {
                         match &*txt.as_str() {
                             "match" => {
                                 let right_node = Some( self.parse_patterns_match()? );
-                                match self.symbol.clone() {
-                                    Ok(s3) => {
-                                        match &*s3 {
-                                            Token::Newline(..) => {
-                                                let symbol = Some( s3 );
-                                                Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
-                                            },
-                                            _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
-                                        }
-                                    },
-                                    _ => Err(format!("SyntaxError at {}: Expecting symbol in single input!", start_pos))
-                                }
+                                Ok( Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, None) ) )
                             },
                             _ => {
                                 let right_node = Some( self.parse_statements_simple_stmt()? );
diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..aadaeb7 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,15 +1,16 @@
 
-use crate::{ ASTNode, PythonCoreParser };
+use crate::{ ASTNode, PythonCoreParser, Statements };
 
 
 pub trait Patterns {
-    fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String>;
+    fn parse_patterns_match(&mut self) -> Result<Box<ASTNode>, String>;
 }
 
 
 impl Patterns for PythonCoreParser {
-    fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+    fn parse_patterns_match(&mut self) -> Result<Box<ASTNode>, String> {
+        // Match statements are not supported yet, but 'match' is a soft keyword and may be used as a name.
+        self.parse_statements_simple_stmt()
     }
 }
 
-- 
2.43.0


From 3a4926a02451603ee3b36b9ce36a3ff0c72731d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 30/42] fix: class bases are an argument list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 2e3de0c..1ac4a73 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -619,7 +619,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From 81fc064bc80a6a8ddc4d5298e1861bb32e89aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 31/42] fix: a function definition needs its parameter list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 1ac4a73..2814de4 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -349,7 +349,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From 1fd640db6f9e909e8558785977cddec9c940be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 32/42] fix: a nested try statement no longer decides the
 except kind of the outer one

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 608afa0..5f2e71d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1505,7 +1505,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1518,6 +1518,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1561,6 +1562,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From 864c872a78927fc7d8fa53073719d82d65dfb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 33/42] fix: 'except*' needs an exception type

---
 src/parser/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5f2e71d..e02c814 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1798,6 +1798,9 @@ impl Statements for PythonCoreParser {
                             Ok(s2) => {
                                 match &*s2 {
                                     Token::PyColon(..) => {
+                                        if symbol_mul.is_some() {
+                                            return Err(format!("SyntaxError at {}: Expecting an exception type after 'except*'!", start_pos))
+                                        }
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
                                     _ => {
-- 
2.43.0


From e598ba70a981e0c28da683f68de329cb0538a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 34/42] fix: a compound statement in single input may end at
 the end of the text

---
 src/parser/blocks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 2814de4..2a000b0 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -124,6 +124,9 @@ impl Blocks for PythonCoreParser {
                                         let symbol = Some( s2 );
                                         Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
                                     },
+                                    Token::EOF(..) => {
+                                        Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, None) ))
+                                    },
                                     _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
                                 }
                             },
-- 
2.43.0


From a92eaaefee3cab3e4ec2e62f7a865de28c05ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 35/42] fix: a function type's argument list accepts a trailing
 ','

---
 src/parser/functions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 3eee384..4a22808 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -169,6 +169,7 @@ impl Functions for PythonCoreParser {
                                                             power_node = Some( self.parse_expressions_test()? );
                                                             false
                                                         },
+                                                        Token::PyRightParen(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_test()? );
                                                             true
-- 
2.43.0


From 28a41d9faadda3d45f431a89c5e3bd073ac8ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 36/42] fix: the second and later entries of dictionaries and
 sets start where they start

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index bc64d9a..44e4f39 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1161,6 +1161,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let start_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1212,6 +1213,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let start_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
-- 
2.43.0


From 9e76bcab653a59cf296b9a9cb65999ff34fda550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 37/42] fix: chains of binary operators no longer copy their
 left operand at every step

---
 src/parser/expressions.rs | 48 +++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 44e4f39..062995a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -320,31 +320,31 @@ impl Expressions for PythonCoreParser {
                             Token::PyMul(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::MulTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::MulTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyDiv(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::DivTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::DivTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyFloorDiv(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::FloorDivTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::FloorDivTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyModulo(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::ModuloTerm(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::ModuloTerm(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyMatrice(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::MatriceTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::MatriceTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             _ => false
@@ -365,13 +365,13 @@ impl Expressions for PythonCoreParser {
                     Token::PyPlus(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_term()?;
-                        left_node = Box::new(ASTNode::PlusArithExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::PlusArithExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyMinus(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_term()?;
-                        left_node = Box::new(ASTNode::MinusArithExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::MinusArithExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -392,13 +392,13 @@ impl Expressions for PythonCoreParser {
                     Token::PyShiftLeft(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_arith()?;
-                        left_node = Box::new(ASTNode::ShiftLeftExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::ShiftLeftExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyShiftRight(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_arith()?;
-                        left_node = Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -419,7 +419,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitAnd(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_shift()?;
-                        left_node = Box::new(ASTNode::AndExpr(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::AndExpr(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -440,7 +440,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitXor(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_and_expr()?;
-                        left_node = Box::new(ASTNode::XorExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::XorExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -461,7 +461,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitOr(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_xor_expr()?;
-                        left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -500,43 +500,43 @@ impl Expressions for PythonCoreParser {
                     Token::PyLess(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::LessComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::LessComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyLessEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::LessEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::LessEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::EqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::EqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyGreaterEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::GreaterEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::GreaterEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyGreater(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::GreaterComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::GreaterComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyNotEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::NotEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::NotEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyIn(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::InComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::InComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyIs(..) => {
@@ -548,11 +548,11 @@ impl Expressions for PythonCoreParser {
                                     Token::PyNot(..) => {
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::IsNotComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), Box::new(symbol2), right_node));
+                                        left_node = Box::new(ASTNode::IsNotComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), Box::new(symbol2), right_node));
                                     },
                                     _ => {
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::IsComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                                        left_node = Box::new(ASTNode::IsComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                                     }
                                 }
                             },
@@ -571,7 +571,7 @@ impl Expressions for PythonCoreParser {
                                     Token::PyIn(..) => {
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::NotInComparison(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), Box::new(symbol2), right_node));
+                                        left_node = Box::new(ASTNode::NotInComparison(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), Box::new(symbol2), right_node));
                                     },
                                     _ => {
                                         return Err(format!("SyntaxError at {}: Expecting 'in' pr 'not in' in comparison expression!", start_pos))
@@ -620,7 +620,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyAnd(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_not_test()?;
-                        left_node = Box::new(ASTNode::AndTest(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::AndTest(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -641,7 +641,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyOr(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_and_test()?;
-                        left_node = Box::new(ASTNode::OrTest(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::OrTest(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
-- 
2.43.0


From 0b914447272a59ded424a3b5e2d1d742b480b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 38/42] fix: a comment on the last line without line break no
 longer loses the dedents

---
 src/parser/tokenizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 0cbd027..9301c98 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -193,6 +193,10 @@ impl Tokenizer for PythonCoreTokenizer {
                                 ' '
                             )))
                         }
+                        if self.indent_stack.len() > 1 && self.parenthesis.is_empty() {
+                            self.is_at_beginning_of_line = true;
+                            continue 'outer;
+                        }
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From f27045d3dafaa7ed8afcb51b5f2e7a279010fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 39/42] fix: starred lambda parameters take no default value

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 062995a..a302ef5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1578,7 +1578,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = Some( self.parse_expressions_vfp_def()?  );
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1592,7 +1592,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1625,7 +1625,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1690,7 +1690,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1704,7 +1704,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1738,7 +1738,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1764,7 +1764,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1778,7 +1778,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1812,7 +1812,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From 07cd91febb2fbd9c413963e81a606e4e45a91b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 40/42] fix: lambda parameter lists accept a trailing ','

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a302ef5..5e3ab9b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1607,6 +1607,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
@@ -1669,6 +1670,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 coma_found = true;
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1719,6 +1721,7 @@ impl Expressions for PythonCoreParser {
                                                                                                                 }
                                                                                                                 false
                                                                                                             },
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             _ => {
                                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                                 true
@@ -1793,6 +1796,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 }
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1827,6 +1831,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
-- 
2.43.0


From 355c8ebcc54b499014813a6e920a78b1ac946595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 41/42] fix: lambda parameter lists accept a single '*'

---
 src/parser/expressions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5e3ab9b..714716f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1578,7 +1578,10 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_vfp_def()?  );
+                        mul_node = match &self.symbol { // a single '*' starts the keyword-only parameters
+                            Ok(x) if matches!(**x, Token::PyComa(..)) => None,
+                            _ => Some( self.parse_expressions_vfp_def()? )
+                        };
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1692,7 +1695,10 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
+                                                                            mul_node = match &self.symbol { // a single '*' starts the keyword-only parameters
+                                                                                Ok(x) if matches!(**x, Token::PyComa(..)) => None,
+                                                                                _ => Some( self.parse_expressions_vfp_def()? )
+                                                                            };
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1767,7 +1773,10 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
+                                                            mul_node = match &self.symbol { // a single '*' starts the keyword-only parameters
+                                                                Ok(x) if matches!(**x, Token::PyComa(..)) => None,
+                                                                _ => Some( self.parse_expressions_vfp_def()? )
+                                                            };
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
-- 
2.43.0


From b4b7c8d016ce9d3e5abd8000bab59957940ccba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 42/42] fix: the body of a lambda in a comprehension condition
 may itself be a lambda

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 714716f..2c36a47 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -680,7 +680,7 @@ impl Expressions for PythonCoreParser {
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     },
                                     _ => {
-                                        let right = self.parse_expressions_or_test()?;
+                                        let right = self.parse_expressions_no_cond_test()?;
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     }
                                 }
-- 
2.43.0

