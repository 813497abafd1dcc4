From ef380f52c62721f98aa4b1f66aa2694c1e3eb0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 01/84] fix: report end of input instead of panicking when a
 character is expected at EOF

---
 src/parser/lexer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..0913c67 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -83,13 +83,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
         let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From 3171e91ac85e31bbeb2488372cf4fea2df4ff0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 02/84] fix: parse unary minus as an operand of ** and of unary
 operators instead of panicking

---
 src/parser/expression.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..3bd430b 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -490,7 +490,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_exponent(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_unary()?;
         if self.consume_punct_no_term(Punct::DMul)? {
-            let rhs = self.parse_exponent()?;
+            let rhs = if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+                // 2 ** -a
+                self.parse_unary_minus()?
+            } else {
+                self.parse_exponent()?
+            };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
             Ok(lhs)
@@ -500,21 +505,31 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_unary(&mut self) -> Result<Node, LexerErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Not, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else {
             self.parse_method_call()
         }
     }
 
+    /// Parse the operand of an unary operator.
+    fn parse_unary_operand(&mut self) -> Result<Node, LexerErr> {
+        if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+            // !-a
+            self.parse_unary_minus()
+        } else {
+            self.parse_unary()
+        }
+    }
+
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
         if self.consume_reserved(Reserved::Yield)? {
             return self.parse_yield();
@@ -762,7 +777,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     },
                     TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                    kind => Err(error_unexpected(
+                        self.prev_loc(),
+                        format!("Unexpected token: {:?}", kind),
+                    )),
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From f5d071978f9d8eadfab535707458fa552090eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 03/84] fix: do not panic when the token whose location is
 wanted is a lexical error

---
 src/parser.rs          | 5 ++++-
 src/parser/lexer.rs    | 2 +-
 src/parser/literals.rs | 3 +--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..f6409de 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -274,7 +274,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0913c67..ae6943b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1401,7 +1401,7 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    fn cur_loc(&self) -> Loc {
+    pub(crate) fn cur_loc(&self) -> Loc {
         let end = std::cmp::max(self.token_start_pos, self.pos - 1);
         Loc(self.token_start_pos, end)
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..dbbfbed 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,10 +4,9 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc();
         let mut s = RubyString::new();
         self.lexer.read_char_literal(&mut s)?;
-        Ok(Node::new_string(s, loc.merge(self.prev_loc)))
+        Ok(Node::new_string(s, self.lexer.cur_loc()))
     }
 
     /// Parse string literals.
-- 
2.43.0


From 5659a1580dac08ba34b1bce94292559fac974854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 04/84] fix: interpolate special and class variables ("#$1",
 "#@@a") instead of panicking

---
 src/parser/literals.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index dbbfbed..61d9f83 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -316,7 +316,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_lambda(params, body, lvar, loc))
     }
 
-    /// Parse template (#{..}, #$s, #@a).
+    /// Parse template (#{..}, #$s, #$1, #@a, #@@a).
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
@@ -330,7 +330,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
+                _ => {
+                    return Err(error_unexpected(
+                        loc,
+                        format!("Unexpected token: {:?}", tok.kind),
+                    ))
+                }
             };
             nodes.push(node);
         };
-- 
2.43.0


From f39b6a8309ccc27c558965bb5a226debcd352adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 05/84] fix: treat '#@' and '#$' not followed by a variable
 name as plain text in literals

---
 src/parser/lexer.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ae6943b..84c813f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -791,6 +791,21 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine whether an interpolation ("#{..}", "#$v", "#@v", "#@@v") starts after '#' or not.
+    fn is_interpolation(&self) -> bool {
+        let is_ident = |ch: char| ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii();
+        let mut iter = self.code[self.pos..].chars();
+        match (iter.next(), iter.next()) {
+            (Some('{'), _) => true,
+            (Some('$'), Some(ch)) => {
+                is_ident(ch) || ch.is_ascii_digit() || "~*$?!@/\\;,.=:<>\"&`'+".contains(ch)
+            }
+            (Some('@'), Some('@')) => iter.next().map_or(false, is_ident),
+            (Some('@'), Some(ch)) => is_ident(ch),
+            _ => false,
+        }
+    }
+
     /// Read interpolation string with `open` as opening char and `term` as a terminator.
     fn read_interpolate(
         &mut self,
@@ -830,13 +845,13 @@ impl<'a> Lexer<'a> {
                     };
                     self.read_escaped_char(&mut s)?;
                 }
-                '#' => match self.peek() {
+                '#' => {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(s, level))
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(s, level));
                     }
-                    _ => s.push_char('#'),
-                },
+                    s.push_char('#')
+                }
                 '\n' => {
                     s.push_char('\n');
                     if self.heredoc_pos > self.pos {
@@ -1036,12 +1051,12 @@ impl<'a> Lexer<'a> {
                         }
                     };
                 }
-                '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(body.into(), 0))
+                '#' => {
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(body.into(), 0));
                     }
-                    _ => body.push('#'),
-                },
+                    body.push('#')
+                }
                 c => body.push(c),
             }
         }
-- 
2.43.0


From a62c2f761dbed00aefcb7bf5127ef4191f18f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 06/84] fix: accept interpolation in a backtick here document
 instead of panicking

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 61d9f83..e21e089 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -164,7 +164,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From e7fa2d35ae8d5821709d89913671b29cf931e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 07/84] fix: read octal and binary literals beyond 64 bits as
 big integers

---
 src/parser/lexer.rs | 48 +++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 84c813f..6aa17a8 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -719,44 +719,36 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
-            Some(_) => {
-                return Err(self.error_unexpected(self.pos));
-            }
-            None => return Err(Self::error_eof(self.pos)),
-        };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
-            self.get()?;
-        }
-        Ok(self.new_numlit(val as i64))
+        self.read_radix_number(8)
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
-            Some(_) => {
-                return Err(self.error_unexpected(self.pos));
-            }
+        self.read_radix_number(2)
+    }
+
+    /// Read digits of octal or binary number.
+    fn read_radix_number(&mut self, radix: u32) -> Result<Token, LexerErr> {
+        let start_pos = self.pos;
+        match self.peek() {
+            Some(ch) if ch.is_digit(radix) => {}
+            Some(_) => return Err(self.error_unexpected(self.pos)),
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
         loop {
             match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
+                Some(ch) if ch.is_digit(radix) || ch == '_' => self.get()?,
                 _ => break,
-            }
-            self.get()?;
+            };
+        }
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
         }
-        Ok(self.new_numlit(val as i64))
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 178cc9ec11fb67216d8f15ec35fd00e9a44a7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 08/84] fix: do not overflow on a huge $<number> variable

---
 src/parser/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6aa17a8..cd06730 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -414,9 +414,11 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id
+                    .saturating_mul(10)
+                    .saturating_add(ch as u32 - '0' as u32);
             }
-            Ok(self.new_special_var(id as u32 + 100))
+            Ok(self.new_special_var(id.saturating_add(100)))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From ed663bda1243f5f5fb7412af1b5eda7910a3b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 09/84] fix: require the closing parenthesis of an argument
 list

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 3bd430b..5fa0838 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -972,7 +972,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -1003,7 +1003,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From 86ba2c3c43c8e654fa31804d33e909ba7df0ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 10/84] fix: a comma after an assignment inside an argument,
 hash or parameter list separates elements

---
 src/parser.rs            | 16 +++++++++++++---
 src/parser/expression.rs | 19 +++++++++++++++----
 src/parser/literals.rs   |  5 +++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f6409de..afb09fd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -645,7 +645,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
-                        self.parse_arg()?
+                        self.parse_default_value()?
                     };
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -670,10 +670,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_default_value()?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_default_value()?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -728,6 +728,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
+    /// Parse default value of a formal parameter.
+    fn parse_default_value(&mut self) -> Result<Node, LexerErr> {
+        let old = self.suppress_mul_assign;
+        // multiple assignment must be suppressed in parsing parameters.
+        self.suppress_mul_assign = true;
+        let node = self.parse_arg()?;
+        self.suppress_mul_assign = old;
+        Ok(node)
+    }
+
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
         let loc = self.loc();
         let name = self.expect_ident()?;
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5fa0838..bc0e4f0 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -6,11 +6,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.peek()?;
         let loc = self.loc();
         let mut nodes = vec![];
+        // statements are not affected by the list which surrounds them.
+        let old = self.suppress_mul_assign;
+        self.suppress_mul_assign = false;
 
         loop {
             if self.peek()?.check_stmt_end() {
-                let node = Node::new_comp_stmt(nodes, loc);
-                return Ok(node);
+                break;
             }
 
             let node = self.parse_stmt()?;
@@ -19,6 +21,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
+        self.suppress_mul_assign = old;
         let node = Node::new_comp_stmt(nodes, loc);
         Ok(node)
     }
@@ -227,7 +230,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             let lhs = self.check_lhs(lhs)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
@@ -920,7 +923,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// arg, *splat_arg, kw: kw_arg, **double_splat_arg, &block <punct>
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
-        let punct = punct.into();
+        let old = self.suppress_mul_assign;
+        // multiple assignment must be suppressed in parsing arg list.
+        self.suppress_mul_assign = true;
+        let arglist = self.parse_arglist_sub(punct.into())?;
+        self.suppress_mul_assign = old;
+        Ok(arglist)
+    }
+
+    fn parse_arglist_sub(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index e21e089..7fab964 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -176,8 +176,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
+        let old = self.suppress_mul_assign;
+        // multiple assignment must be suppressed in parsing hash elements.
+        self.suppress_mul_assign = true;
         loop {
             if self.consume_punct(Punct::RBrace)? {
+                self.suppress_mul_assign = old;
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
             let ident_loc = self.loc();
@@ -205,6 +209,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             };
         }
+        self.suppress_mul_assign = old;
         self.expect_punct(Punct::RBrace)?;
         Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())))
     }
-- 
2.43.0


From 13b1e1023b65e3f1eb068e3c37d3b92fd53839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 11/84] fix: bind a do block to the command whose arguments
 precede it, and a loop's do to the loop

---
 src/parser/expression.rs   | 16 +++++++++++++++-
 src/parser/flow_control.rs |  3 +++
 src/parser/literals.rs     | 10 +++++++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bc0e4f0..0cb2e18 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -8,7 +8,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let mut nodes = vec![];
         // statements are not affected by the list which surrounds them.
         let old = self.suppress_mul_assign;
+        let old_do = self.suppress_do_block;
         self.suppress_mul_assign = false;
+        self.suppress_do_block = false;
 
         loop {
             if self.peek()?.check_stmt_end() {
@@ -22,6 +24,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.suppress_mul_assign = old;
+        self.suppress_do_block = old_do;
         let node = Node::new_comp_stmt(nodes, loc);
         Ok(node)
     }
@@ -184,12 +187,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
+        let old_do = self.suppress_do_block;
+        if term.is_some() {
+            self.suppress_do_block = false;
+        }
 
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
                     self.suppress_mul_assign = old;
+                    self.suppress_do_block = old_do;
                     return Ok(args);
                 }
             };
@@ -207,6 +215,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.suppress_mul_assign = old;
+        self.suppress_do_block = old_do;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -924,10 +933,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         let old = self.suppress_mul_assign;
+        let old_do = self.suppress_do_block;
+        let punct = punct.into();
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
-        let arglist = self.parse_arglist_sub(punct.into())?;
+        // do-block after unparenthesized arguments belongs to the command.
+        self.suppress_do_block = punct.is_none();
+        let arglist = self.parse_arglist_sub(punct)?;
         self.suppress_mul_assign = old;
+        self.suppress_do_block = old_do;
         Ok(arglist)
     }
 
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..597c798 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 7fab964..10b6c09 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -179,9 +179,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing hash elements.
         self.suppress_mul_assign = true;
+        let old_do = self.suppress_do_block;
+        self.suppress_do_block = false;
         loop {
             if self.consume_punct(Punct::RBrace)? {
                 self.suppress_mul_assign = old;
+                self.suppress_do_block = old_do;
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
             let ident_loc = self.loc();
@@ -210,6 +213,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
         }
         self.suppress_mul_assign = old;
+        self.suppress_do_block = old_do;
         self.expect_punct(Punct::RBrace)?;
         Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())))
     }
@@ -297,7 +301,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct(Punct::LParen)? {
             self.parse_formal_params(Punct::RParen)?
         } else {
-            self.parse_formal_params(None)?
+            let old = self.suppress_do_block;
+            self.suppress_do_block = true;
+            let params = self.parse_formal_params(None)?;
+            self.suppress_do_block = old;
+            params
         };
         let body = if self.consume_punct(Punct::LBrace)? {
             let body = self.parse_comp_stmt()?;
-- 
2.43.0


From 8890397abc6efb498caf6f9c79743edabde32965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 12/84] fix: keep the safe navigation flag in a&.b(...) command
 calls and a&.()

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0cb2e18..4457f74 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -645,7 +645,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -657,7 +657,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From 99a34aab772757f858e21f32c2d836a5b0a4a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 13/84] fix: an identifier used as a receiver is a call located
 at the identifier in every call form

---
 src/parser/expression.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 4457f74..3b3c7ef 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -642,6 +642,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         //      ｜ 一次式 ［行終端子禁止］ "::" メソッド名 括弧付き実引数 ブロック?
         //      ｜ 一次式 ［行終端子禁止］ "::" 定数以外のメソッド名 ブロック?
         let loc = self.prev_loc;
+        let receiver_loc = receiver.loc();
+        let receiver = match receiver.kind {
+            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, receiver_loc),
+            _ => receiver,
+        };
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
@@ -667,11 +672,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         };
 
-        let node = match receiver.kind {
-            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, loc),
-            _ => receiver,
-        };
-        Ok(Node::new_mcall(node, id, arglist, safe_nav, loc))
+        Ok(Node::new_mcall(receiver, id, arglist, safe_nav, loc))
     }
 
     pub(super) fn parse_primary(&mut self, suppress_unparen_call: bool) -> Result<Node, LexerErr> {
-- 
2.43.0


From 38146b8e16237fe1f16af4b1d8a92211e039c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 14/84] fix: locations of method names, symbols and negative
 numbers cover exactly their text

---
 src/parser/define.rs     |  6 ++----
 src/parser/expression.rs | 28 ++++++++++++++++------------
 src/parser/lexer.rs      | 10 ++--------
 3 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..bbf1457 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -162,10 +162,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 _ => unreachable!(),
             }
         } else {
-            Ok(Node::new_symbol(
-                self.read_method_name(true)?.0,
-                self.prev_loc(),
-            ))
+            let (name, loc) = self.read_method_name(true)?;
+            Ok(Node::new_symbol(name, loc))
         }
     }
 
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 3b3c7ef..34376a7 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -783,18 +783,22 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    kind => Err(error_unexpected(
-                        self.prev_loc(),
-                        format!("Unexpected token: {:?}", kind),
-                    )),
-                },
+                Punct::Minus => {
+                    let tok = self.get()?;
+                    let loc = loc.merge(tok.loc());
+                    match tok.kind {
+                        TokenKind::IntegerLit(num) => match num.checked_neg() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        },
+                        TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
+                        TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
+                        kind => Err(error_unexpected(
+                            loc,
+                            format!("Unexpected token: {:?}", kind),
+                        )),
+                    }
+                }
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
                     self.suppress_mul_assign = false;
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cd06730..789ca58 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -581,10 +581,7 @@ impl<'a> Lexer<'a> {
         } else {
             return Err(self.error_unexpected(self.token_start_pos));
         };
-        Ok((
-            self.current_slice().to_string(),
-            Loc(self.token_start_pos, self.pos),
-        ))
+        Ok((self.current_slice().to_string(), self.cur_loc()))
     }
 
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
@@ -600,10 +597,7 @@ impl<'a> Lexer<'a> {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-                Ok(Some((
-                    self.current_slice().to_string(),
-                    Loc(self.token_start_pos, self.pos),
-                )))
+                Ok(Some((self.current_slice().to_string(), self.cur_loc())))
             }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
-- 
2.43.0


From 3597de9953166910115d1f2f81ad686d33515004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 15/84] fix: forget tokens peeked ahead when the parser goes
 back

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index afb09fd..34e5e55 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From e6b2825989a83e225a6c82a12005e8d8b5f3fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 16/84] fix: keep variables assigned inside a here document,
 and locate its contents there

---
 src/parser/literals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 10b6c09..09e74ae 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -132,11 +132,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
+                self.scope = parser.scope;
                 res?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
+                self.scope = parser.scope;
                 res?
             }
         };
@@ -362,7 +364,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Parser {
             lexer,
             path: self.path.clone(),
-            prev_loc: Loc(0, 0),
+            prev_loc: Loc(pos, pos),
             scope: self.scope.clone(),
             loop_stack: vec![],
             extern_context: self.extern_context.clone(),
-- 
2.43.0


From d17223dffeb1a825a063a4ae441c399228f05df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 17/84] fix: keep track of nested delimiters across
 interpolations in a string literal

---
 src/parser/literals.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 09e74ae..39b9cc3 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -33,16 +33,24 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
-        level: usize,
+        mut delimiter: Option<char>,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
         loop {
             self.parse_template(&mut nodes)?;
+            // nested pairs of delimiters. e.g. %(#{a} (b) c)
+            let open = match delimiter {
+                Some(')') => Some('('),
+                Some('}') => Some('{'),
+                Some(']') => Some('['),
+                Some('>') => Some('<'),
+                _ => None,
+            };
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -53,8 +61,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_delimiter, next_level) => {
                                 let t = self.get()?;
+                                delimiter = next_delimiter;
+                                level = next_level;
                                 name += next_s.as_str();
                                 loc = loc.merge(t.loc);
                                 break;
@@ -70,7 +80,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.into(), loc));
                 }
                 _ => unreachable!("{:?}", tok),
-- 
2.43.0


From 5505be6b24b1de751c84c6f696fc37a476be71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 18/84] fix: read \2 .. \9 in a regular expression as back
 references

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 789ca58..823ac46 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1028,7 +1028,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if '1' <= ch && ch <= '9' && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From 9ac32edd70059cf2cb2ff352c2f17455d2ac20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 19/84] fix: an identifier followed by else, elsif, when,
 ensure or in is not a command call

---
 src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 34376a7..db0f96c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1179,6 +1179,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::Ensure
+                        | Reserved::In
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From 9e9a5712c1d76546ed2e575b9229ef66d5821098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 20/84] fix: an unmatched ']' in a regular expression does not
 start a character class

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 823ac46..69d1019 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -994,7 +994,9 @@ impl<'a> Lexer<'a> {
                     body.push('[');
                 }
                 ']' => {
-                    char_class -= 1;
+                    if char_class > 0 {
+                        char_class -= 1;
+                    }
                     body.push(']');
                 }
                 '\\' => {
-- 
2.43.0


From eb6d3f78c5734db79c60bdf16b9f9a9f4844d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 21/84] fix: blanks or a comment after an identifier at the end
 of input do not make it a command call

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index db0f96c..877c580 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1153,7 +1153,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
                     Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
                         true
-- 
2.43.0


From 1502c81856e044c5a3c99637fac19839d25516a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 22/84] fix: 'f **h' passes a double splat argument

---
 src/parser/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 877c580..a53de16 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1162,6 +1162,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
+                    | Punct::DMul
                     | Punct::Div
                     | Punct::BitAnd
                     | Punct::Rem
-- 
2.43.0


From ce8c9e3ea74d5722cc45525a110a0d2f8aaeb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 23/84] fix: reject assignment to expressions which are not
 assignable

---
 src/node.rs              | 21 +++++++++++++++++++++
 src/parser/expression.rs |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 029cb0c..1edfb8f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -355,6 +355,27 @@ impl Node {
         matches!(&self.kind, NodeKind::Integer(_) | NodeKind::Bignum(_))
     }
 
+    /// Check whether `self` can be the target of an assignment.
+    pub(crate) fn is_assignable(&self) -> bool {
+        match &self.kind {
+            NodeKind::LocalVar(..)
+            | NodeKind::InstanceVar(_)
+            | NodeKind::ClassVar(_)
+            | NodeKind::GlobalVar(_)
+            | NodeKind::SpecialVar(_)
+            | NodeKind::Const { .. }
+            | NodeKind::Index { .. }
+            | NodeKind::DiscardLhs => true,
+            NodeKind::MethodCall {
+                method, arglist, ..
+            } => {
+                *arglist == ArgList::default()
+                    && !method.ends_with(|c: char| c.is_ascii_punctuation() && c != '_')
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_const_expr(&self) -> bool {
         matches!(
             &self.kind,
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a53de16..1c02716 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1115,6 +1115,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn check_lhs(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         let loc = lhs.loc();
         if let NodeKind::Ident(name) = lhs.kind {
+            if name.ends_with(&['!', '?'][..]) {
+                return Err(error_unexpected(loc, "Invalid assignment target."));
+            }
             if name.starts_with('_') {
                 let mut iter = name.chars();
                 iter.next();
@@ -1142,6 +1145,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
+        } else if !lhs.is_assignable() {
+            return Err(error_unexpected(loc, "Invalid assignment target."));
         }
         Ok(lhs)
     }
-- 
2.43.0


From 7a1fd238aa13740e233db22a034032bc7b8c20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 24/84] fix: the target of an assignment is a local variable
 already in its right-hand side

---
 src/parser/expression.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 1c02716..7747b22 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -157,11 +157,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
             std::mem::swap(lhs, &mut node);
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -239,8 +239,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             let lhs = self.check_lhs(lhs)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -468,8 +468,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 let lhs = self.check_lhs(lhs)?;
+                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -484,16 +484,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -831,8 +831,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     if self.consume_punct_no_term(Punct::Comma)? {
                         self.parse_mul_assign(first_lhs)
                     } else if self.consume_punct_no_term(Punct::Assign)? {
-                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         let lhs = self.check_lhs(first_lhs)?;
+                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         let loc = self.loc();
-- 
2.43.0


From 6ab2a931d9231906a5bee1acf9998c82e366d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 25/84] fix: accept an assignment as the operand of !, ~, unary
 + and **

---
 src/parser/expression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7747b22..95c320c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -506,7 +506,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 // 2 ** -a
                 self.parse_unary_minus()?
             } else {
-                self.parse_exponent()?
+                // 2 ** a = 1
+                let rhs = self.parse_exponent()?;
+                self.parse_accesory_assign(rhs)?
             };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
@@ -538,7 +540,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             // !-a
             self.parse_unary_minus()
         } else {
-            self.parse_unary()
+            // !a = 1
+            let node = self.parse_unary()?;
+            self.parse_accesory_assign(node)
         }
     }
 
-- 
2.43.0


From 3b5756352924f21ca2bfd19c504382586dfea076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 26/84] fix: a parameter precedes the variables of its default
 value in the variable table

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 34e5e55..ba02d0f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -643,6 +643,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
+                    self.new_param(name.clone(), loc)?;
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
@@ -659,10 +660,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             ))
                         }
                     };
-                    args.push(FormalParam::optional(name.clone(), default, loc));
-                    self.new_param(name, loc)?;
+                    args.push(FormalParam::optional(name, default, loc));
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
+                    let lvar = self.new_param(name.clone(), loc)?;
                     let next = self.peek_no_term()?.kind;
                     let default =
                         if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
@@ -685,8 +686,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     } else {
                         state = Kind::KeyWord;
                     };
-                    args.push(FormalParam::keyword(name.clone(), default, loc));
-                    let lvar = self.new_param(name, loc)?;
+                    args.push(FormalParam::keyword(name, default, loc));
                     self.add_kw_param(lvar);
                 } else {
                     // Required param
-- 
2.43.0


From 8a076e35d23f103e110fb8ff5d306ef9583e5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 27/84] fix: resolve variables of the outer context through
 blocks, and not inside method or class bodies

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba02d0f..d32c448 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -208,18 +208,22 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If exiets, return true.
     fn is_local_var(&mut self, id: &str) -> Option<usize> {
         let mut outer = 0;
-        for c in self.scope.iter().rev() {
+        for (i, c) in self.scope.iter().enumerate().rev() {
             if c.lvar.table.get_lvarid(id).is_some() {
                 return Some(outer);
             }
+            if i == 0 {
+                // The outer context surrounds the top level scope.
+                break;
+            }
             match c.kind {
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                _ => return None,
             }
         }
         if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
+            return a.find_lvar(id).map(|depth| depth + outer);
         }
         None
     }
-- 
2.43.0


From 883baa0df23d004f5a41605e6b0dde8f3188ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 28/84] fix: report the line of a location at the end of input,
 and of a span up to the first character of a line

---
 src/source_info.rs | 43 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 307aedf..dacc2f7 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -101,26 +101,6 @@ impl SourceInfo {
             res_string += &"^".repeat(length);
             res_string += "\n";
         }
-
-        if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.line_no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&code[line.1..loc.0]);
-            let length = console::measure_text_width(&code[loc.0..loc.1]);
-            let is_cr = loc.1 >= code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.file_name(), line.0);
-            res_string += if !is_cr {
-                &code[line.1..=loc.1]
-            } else {
-                &code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
-            res_string += "\n";
-        }
         res_string
     }
 }
@@ -155,7 +135,14 @@ impl SourceInfo {
                     None
                 }
             })
-            .unwrap()
+            // after the last newline.
+            .unwrap_or_else(|| self.last_line().line_no)
+    }
+
+    /// Empty line after the last newline.
+    fn last_line(&self) -> Line {
+        let line_no = self.code.matches('\n').count() + 1;
+        Line::new(line_no, self.code.len(), self.code.len())
     }
 
     fn get_next_char(&self, pos: usize) -> Option<char> {
@@ -164,8 +151,6 @@ impl SourceInfo {
 
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
         let mut line_top = 0;
-        //let code = self.code.clone() + " ";
-        let code_len = self.code.len();
         let mut lines: Vec<_> = self
             .code
             .char_indices()
@@ -176,16 +161,10 @@ impl SourceInfo {
                 line_top = pos + 1;
                 Line::new(idx + 1, top, pos)
             })
-            .filter(|line| {
-                if loc.0 == loc.1 {
-                    line.top <= loc.1 && line.end >= loc.0
-                } else {
-                    line.top < loc.1 && line.end > loc.0
-                }
-            })
+            .filter(|line| line.top <= loc.1 && line.end >= loc.0)
             .collect();
-        if line_top < code_len && code_len > loc.0 && line_top < loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len));
+        if lines.is_empty() {
+            lines.push(self.last_line());
         }
         lines
     }
-- 
2.43.0


From d5b2dd0efe958ae38a3b85dc0f7f9592b0df293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 29/84] fix: render locations in lines with multibyte
 characters wider than the terminal

---
 src/source_info.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index dacc2f7..795416d 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -80,22 +80,33 @@ impl SourceInfo {
             };
 
             let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
-            }
-            let mut lead = if loc.0 <= line.top {
-                0
-            } else {
-                console::measure_text_width(&code[start..loc.0])
-            };
-            let offset = lead / term_width * term_width;
-            lead -= offset;
             let range_start = std::cmp::max(loc.0, line.top);
-            let range_end = std::cmp::min(loc.1, line.end);
-            let term_end = start + (range_end - start) / term_width * term_width + term_width - 1;
-            let length = console::measure_text_width(&code[range_start..=range_end]);
-            res_string += &code[(start + offset)..=std::cmp::min(end, term_end)];
+            // `loc` may point at the middle of a multibyte character.
+            let mut range_end = std::cmp::min(loc.1, line.end) + 1;
+            while !code.is_char_boundary(range_end) {
+                range_end += 1;
+            }
+            // split the line to fit the terminal.
+            let mut row_start = start;
+            let mut row_end = line.end;
+            let mut row_width = 0;
+            for (i, ch) in code[start..line.end].char_indices() {
+                let pos = start + i;
+                let width = console::measure_text_width(ch.encode_utf8(&mut [0; 4]));
+                if row_width > 0 && row_width + width > term_width {
+                    if pos <= range_start {
+                        row_start = pos;
+                    } else if pos >= range_end {
+                        row_end = pos;
+                        break;
+                    }
+                    row_width = 0;
+                }
+                row_width += width;
+            }
+            let lead = console::measure_text_width(&code[row_start..range_start]);
+            let length = console::measure_text_width(&code[range_start..range_end]);
+            res_string += &code[row_start..row_end];
             res_string += "\n";
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
@@ -145,10 +156,6 @@ impl SourceInfo {
         Line::new(line_no, self.code.len(), self.code.len())
     }
 
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
-    }
-
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
         let mut line_top = 0;
         let mut lines: Vec<_> = self
-- 
2.43.0


From 87f163455719a12a1b6acf70c44d10121ae80572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 30/84] fix: reject a \u{..} escape without hexadecimal digits
 instead of looping forever

---
 src/parser/lexer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 69d1019..c2018e0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -905,13 +905,11 @@ impl<'a> Lexer<'a> {
         let mut u = 0;
         if strict {
             for _ in 0..4 {
-                u = 16 * u
-                    + self.expect_hex().map_err(|_| {
-                        Self::error_parse("Invalid Unicode escape sequence.", self.pos)
-                    })?;
+                u = 16 * u + self.expect_unicode_hex()?;
             }
         } else {
-            let mut i = 0;
+            u = self.expect_unicode_hex()?;
+            let mut i = 1;
             while let Some(h) = self.consume_hex() {
                 if i == 6 {
                     return Err(Self::error_parse(
@@ -934,6 +932,13 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    fn expect_unicode_hex(&mut self) -> Result<u32, LexerErr> {
+        self.expect_hex().map_err(|err| match err.0 {
+            ParseErrKind::UnexpectedEOF => err,
+            _ => Self::error_parse("Invalid Unicode escape sequence.", self.pos),
+        })
+    }
+
     /// Read char literal.
     pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<(), LexerErr> {
         let c = self.get()?;
-- 
2.43.0


From 2169c41d336e0e4e7506a05c736cc311fa2d7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 31/84] fix: skip here documents at a newline in single-quoted
 strings, regular expressions and after a backslash

---
 src/parser/lexer.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index c2018e0..e439972 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -842,9 +842,7 @@ impl<'a> Lexer<'a> {
                 }
                 '\n' => {
                     s.push_char('\n');
-                    if self.heredoc_pos > self.pos {
-                        self.pos = self.heredoc_pos;
-                    }
+                    self.skip_heredoc();
                 }
                 c => s.push_char(c),
             }
@@ -892,6 +890,10 @@ impl<'a> Lexer<'a> {
                         s.push(c);
                     }
                 }
+                '\n' => {
+                    s.push('\n');
+                    self.skip_heredoc();
+                }
                 c => s.push(c),
             }
         }
@@ -1052,6 +1054,10 @@ impl<'a> Lexer<'a> {
                     }
                     body.push('#')
                 }
+                '\n' => {
+                    body.push('\n');
+                    self.skip_heredoc();
+                }
                 c => body.push(c),
             }
         }
@@ -1289,11 +1295,16 @@ impl<'a> Lexer<'a> {
         start..self.pos
     }
 
+    /// Skip the bodies of the here documents which start on the line just finished.
+    fn skip_heredoc(&mut self) {
+        if self.heredoc_pos > self.pos {
+            self.pos = self.heredoc_pos;
+        }
+    }
+
     fn consume_newline(&mut self) -> bool {
         if self.consume('\n') {
-            if self.heredoc_pos > self.pos {
-                self.pos = self.heredoc_pos;
-            };
+            self.skip_heredoc();
             true
         } else {
             false
@@ -1305,6 +1316,7 @@ impl<'a> Lexer<'a> {
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
             self.pos += 2;
+            self.skip_heredoc();
             true
         } else {
             false
-- 
2.43.0


From cbdae6f26af75385786394ca0920c6c41e3d3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 32/84] fix: an octal escape above \177 denotes a byte, as \x80
 does

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e439972..d5193ad 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1148,6 +1148,10 @@ impl<'a> Lexer<'a> {
             }
             c if ('0'..='7').contains(&c) => {
                 if let Some(num) = self.consume_tri_octal(c) {
+                    if num > 0x7f {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
                     num as char
                 } else {
                     c
-- 
2.43.0


From 55f4b88bdda1a2f0148c3a0d5efb073d2872c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 33/84] fix: in %q and %r exactly the delimiters and the
 backslash can be escaped

---
 src/parser/lexer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d5193ad..818b106 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -878,13 +878,12 @@ impl<'a> Lexer<'a> {
                         continue;
                     };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
-                    } else if c == '\\' {
-                        s.push('\\');
+                    if c == '\\' || c == term || open == Some(c) {
+                        // only the delimiters and the backslash itself can be escaped.
                         if escape_backslash {
                             s.push('\\');
                         }
+                        s.push(c);
                     } else {
                         s.push('\\');
                         s.push(c);
-- 
2.43.0


From 7e3c962892a8dec9097835344e3104b31e39bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 34/84] fix: any white space separates the words of %w and %i

---
 src/parser/literals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 39b9cc3..a206716 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -98,7 +98,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 // e.g. "foo\ bar" => "foo bar"
                 'w' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace())
                         .filter(|x| x != &"")
                         .map(|x| Node::new_string(x.to_string().into(), loc))
                         .collect();
@@ -106,7 +106,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 'i' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace())
                         .filter(|x| x != &"")
                         .map(|x| Node::new_symbol(x.to_owned(), loc))
                         .collect();
-- 
2.43.0


From b6a719b05124a3667213552f9cb8d980de1173d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 35/84] fix: report input which only needs more text as end of
 input: targets, ?:, interpolation, def [, here documents

---
 src/parser.rs            | 12 ++++++++++--
 src/parser/expression.rs | 24 ++++++++++++------------
 src/parser/lexer.rs      | 14 ++++++--------
 src/parser/literals.rs   | 16 ++++++++++------
 4 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d32c448..5e85e2b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -404,6 +404,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Error for the next token which is not the expected one.
+    fn error_unexpected_or_eof(&mut self, msg: &str) -> LexerErr {
+        match self.peek_no_term() {
+            Ok(tok) if tok.is_eof() => error_eof(tok.loc()),
+            Ok(tok) => error_unexpected(tok.loc(), msg),
+            Err(err) => err,
+        }
+    }
+
     /// Get the next token and examine whether it is an expected Punct.
     /// If not, return RubyError.
     fn expect_punct(&mut self, expect: Punct) -> Result<(), LexerErr> {
@@ -538,8 +547,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Ok("[]")
                     }
                 } else {
-                    let loc = self.loc();
-                    Err(error_unexpected(loc, "Invalid operator."))
+                    Err(self.error_unexpected_or_eof("Invalid operator."))
                 }
             }
             _ => Err(error_unexpected(self.prev_loc(), "Invalid operator.")),
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 95c320c..4a8e3d0 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -120,7 +120,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // EXPR : MLHS `=' MRHS
         let loc = first_lhs.loc;
         let mut splat_flag = matches!(first_lhs.kind, NodeKind::Splat(_));
-        let mut mlhs = vec![first_lhs];
+        // a target is a local variable already in the targets after it.
+        let mut mlhs = vec![self.check_lhs(first_lhs)?];
         let old = self.suppress_acc_assign;
         self.suppress_acc_assign = true;
         loop {
@@ -146,21 +147,22 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else {
                 self.parse_method_call()?
             };
-            mlhs.push(node);
+            let next = self.peek_no_term()?;
+            if next.kind != TokenKind::Punct(Punct::Comma)
+                && next.kind != TokenKind::Punct(Punct::Assign)
+            {
+                return Err(self.error_unexpected_or_eof("Expected '='."));
+            }
+            mlhs.push(self.check_lhs(node)?);
             if !self.consume_punct_no_term(Punct::Comma)? {
                 break;
             }
         }
         self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
-            let loc = self.loc();
-            return Err(error_unexpected(loc, "Expected '='."));
+            return Err(self.error_unexpected_or_eof("Expected '='."));
         }
 
-        for lhs in &mut mlhs {
-            let mut node = self.check_lhs(std::mem::take(lhs))?;
-            std::mem::swap(lhs, &mut node);
-        }
         let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
@@ -256,8 +258,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
             if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
-                return Err(error_unexpected(loc, "Expect ':'."));
+                return Err(self.error_unexpected_or_eof("Expect ':'."));
             };
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
@@ -839,8 +840,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
-                        let loc = self.loc();
-                        return Err(error_unexpected(loc, "Expected '=' or ','."));
+                        Err(self.error_unexpected_or_eof("Expected '=' or ','."))
                     }
                 }
                 _ => {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 818b106..cd541f5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -699,7 +699,10 @@ impl<'a> Lexer<'a> {
     fn read_hex_number(&mut self) -> Result<Token, LexerErr> {
         let start_pos = self.pos;
         self.expect_hex()
-            .map_err(|_| Self::error_parse("Numeric literal without digits.", self.pos))?;
+            .map_err(|err| match err.0 {
+                ParseErrKind::UnexpectedEOF => err,
+                _ => Self::error_parse("Numeric literal without digits.", self.pos),
+            })?;
 
         while self.consume_hex().is_some() || self.consume('_') {}
 
@@ -1225,13 +1228,8 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                // the terminator may be in further input.
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index a206716..a805bcc 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -135,6 +135,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Unexpectd <<."));
         }
         let (mode, start, end) = self.lexer.read_heredocument()?;
+        // the body is complete: no further input can close what is open at its end.
+        let in_body = |err: LexerErr| match err.0 {
+            ParseErrKind::UnexpectedEOF => {
+                error_unexpected(err.1, "Unterminated expression in here document.")
+            }
+            _ => err,
+        };
         let node = match mode {
             ParseMode::Single => Node::new_string(
                 self.lexer.code[start..end].to_string().into(),
@@ -144,13 +151,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
                 self.scope = parser.scope;
-                res?
+                res.map_err(in_body)?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
                 self.scope = parser.scope;
-                res?
+                res.map_err(in_body)?
             }
         };
         Ok(node)
@@ -346,10 +353,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
-            if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
-            }
+            self.expect_punct(Punct::RBrace)?;
         } else {
             let tok = self.get()?;
             let loc = tok.loc();
-- 
2.43.0


From b7000f7c5040449f08ef2b740d16bd84e675f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 36/84] fix: a newline may precede the ':' of a conditional
 operator

---
 src/parser/expression.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 4a8e3d0..785b3ab 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -257,9 +257,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = cond.loc();
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
-            if !self.consume_punct_no_term(Punct::Colon)? {
-                return Err(self.error_unexpected_or_eof("Expect ':'."));
-            };
+            self.expect_punct(Punct::Colon)?;
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
             Ok(node)
-- 
2.43.0


From 7568f0f0e566660a9e6ef759253dbdcc7f576883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 37/84] fix: yield without arguments may be an operand or a
 receiver, or be followed by a modifier

---
 src/parser/expression.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 785b3ab..894f376 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -546,9 +546,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
@@ -600,19 +597,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
@@ -903,6 +893,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     Ok(Node::new_alias(new_name, old_name, loc))
                 }
                 Reserved::Super => self.parse_super(),
+                Reserved::Yield => self.parse_yield(),
                 _ => Err(error_unexpected(
                     loc,
                     format!("Unexpected token: {:?}", tok.kind),
-- 
2.43.0


From 3513009e87c0e1ec0854f6babe220e1dc07a246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 38/84] fix: a keyword argument may have the name of a variable
 of an outer scope

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 894f376..b783820 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1002,7 +1002,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From 08420658118cbf30d21d4b37da5ebdac597d1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 39/84] fix: break, next and return without a value before
 while, until, and, or and ':'

---
 src/parser/flow_control.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 597c798..ad1c2b7 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -186,11 +186,21 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = self.prev_loc();
         let tok = self.peek_no_term()?;
         // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
+        let no_value = match tok.kind {
+            TokenKind::Reserved(r) => matches!(
+                r,
+                Reserved::If
+                    | Reserved::Unless
+                    | Reserved::While
+                    | Reserved::Until
+                    | Reserved::And
+                    | Reserved::Or
+            ),
+            // a ? break : b
+            TokenKind::Punct(Punct::Colon) => self.lexer.has_trailing_space(&tok),
+            _ => false,
+        };
+        if no_value || tok.is_term() || tok.check_stmt_end() {
             let val = Node::new_nil(loc);
             return Ok((val, loc));
         };
-- 
2.43.0


From 98ae0c48801e8db6245e3137ec3948df7d9fd231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 40/84] fix: a required keyword parameter may be followed by
 ';'

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5e85e2b..7d136b3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -678,7 +678,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let lvar = self.new_param(name.clone(), loc)?;
                     let next = self.peek_no_term()?.kind;
                     let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                        if next == TokenKind::Punct(Punct::Comma)
+                            || next == TokenKind::Punct(Punct::Semi)
+                            || next == TokenKind::LineTerm
+                        {
                             None
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
-- 
2.43.0


From ffe27f0c722f5ed2e07afefd26dd72f603f58cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 41/84] fix: resolve the identifier a singleton method is
 defined on

---
 src/parser/define.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index bbf1457..9fbc665 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -36,10 +36,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    (
-                        Some(Node::new_lvar(s, 0, loc)),
-                        self.read_method_name(true)?.0,
-                    )
+                    let receiver = match self.is_local_var(&s) {
+                        Some(outer) => Node::new_lvar(s, outer, loc),
+                        None => Node::new_fcall_noarg(s, false, loc),
+                    };
+                    (Some(receiver), self.read_method_name(true)?.0)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
-- 
2.43.0


From e9c77fa73d16ef9055ed986ce306eefb5d13b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 42/84] fix: accept a class variable as the receiver of a
 singleton method definition

---
 src/parser/define.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 9fbc665..4fd2ec4 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -28,6 +28,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.read_method_name(true)?.0,
                 )
             }
+            TokenKind::ClassVar(name) => {
+                self.consume_punct_no_term(Punct::Dot)?;
+                (
+                    Some(Node::new_class_var(name, loc)),
+                    self.read_method_name(true)?.0,
+                )
+            }
             TokenKind::Reserved(r) => (None, self.read_method_ext(r.to_str().to_string())?),
             TokenKind::Ident(s) => {
                 if s.as_str() == "self" {
-- 
2.43.0


From c0aa3e7f7aa1e80596c12c4010eb02f2bce48c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 43/84] fix: support the operator assignment **=

---
 src/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cd541f5..7bf9840 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -263,7 +263,11 @@ impl<'a> Lexer<'a> {
                         if self.consume('=') {
                             return Ok(self.new_punct(Punct::AssignOp(BinOp::Mul)));
                         } else if self.consume('*') {
-                            return Ok(self.new_punct(Punct::DMul));
+                            if self.consume('=') {
+                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Exp)));
+                            } else {
+                                return Ok(self.new_punct(Punct::DMul));
+                            }
                         } else {
                             return Ok(self.new_punct(Punct::Mul));
                         }
-- 
2.43.0


From e9ccfdb932d4f05ef3365af4662b4a530baa9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 44/84] fix: default value of a keyword parameter of a block
 ends before the closing |

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7d136b3..d27d969 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -686,6 +686,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
                                 None
+                            } else if term == Punct::BitOr {
+                                Some(self.parse_primary(true)?)
                             } else {
                                 Some(self.parse_default_value()?)
                             }
-- 
2.43.0


From 289fdfa172c292f58174692959bb00fc080c37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 45/84] fix: a symbol before == or =~ does not swallow the =

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7bf9840..d6e5177 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -576,7 +576,9 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like
+                            && ch == '='
+                            && !matches!(self.peek2(), Some('>' | '=' | '~'))) =>
                 {
                     self.get().unwrap();
                 }
-- 
2.43.0


From ebbded3c22787fec45a9ac3c6f6824e611396d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 46/84] fix: class path and rescue variable cut off by the end
 of input

---
 src/parser/define.rs     | 2 ++
 src/parser/expression.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 4fd2ec4..e273687 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -117,6 +117,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 },
             },
             //NodeKind::Scope(base, id) => (*base, id),
+            // the rest of the path may be still to come.
+            _ if self.peek_no_term()?.is_eof() => return Err(error_eof(self.loc())),
             _ => return Err(error_unexpected(prim.loc, "Invalid Class/Module name.")),
         };
         //eprintln!("base:{:?} name:{:?}", base, name);
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b783820..f1291c1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1051,6 +1051,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
                     let lhs = self.parse_arg()?;
+                    if self.peek_no_term()?.is_eof() {
+                        return Err(error_eof(self.loc()));
+                    }
                     assign = Some(self.check_lhs(lhs)?);
                 }
                 self.parse_then()?;
-- 
2.43.0


From 12a07b6a4b4eb62f167c1785616a5ce36dc85256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 47/84] fix: "class" in a method body cut off before "<<" is
 end of input

---
 src/parser/expression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f1291c1..0748081 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -852,6 +852,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         self.parse_singleton_class(loc)
                     } else {
                         if self.is_method_context() {
+                            // "<<" may be still to come.
+                            if self.peek()?.is_eof() {
+                                return Err(error_eof(self.loc()));
+                            }
                             return Err(error_unexpected(
                                 loc,
                                 "SyntaxError: class definition in method body.",
-- 
2.43.0


From ee84cf41a8ccdf2a90fa61eef37cbddd8b048652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 48/84] fix: numbered parameter followed by a comma in a list

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0748081..106db76 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -717,7 +717,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
-            TokenKind::NumberedParam(i, name) => {
+            TokenKind::NumberedParam(_, name) => {
                 if self.lexer.trailing_lparen() {
                     // _1()
                     let node = Node::new_identifier(name.clone(), loc);
@@ -728,8 +728,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let node = Node::new_identifier(name.to_string(), loc);
                 if let Ok(tok) = self.peek_no_term() {
                     match tok.kind {
-                        // Multiple assignment
-                        TokenKind::Punct(Punct::Comma) => return Err(error_numbered_param(loc, i)),
+                        // Multiple assignment (rejected later) or an element of a list
+                        TokenKind::Punct(Punct::Comma) => return Ok(node),
                         // Method call with block and no args
                         // _1 {}
                         TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
-- 
2.43.0


From 164b2395c241e9b5493b7ac8028f70dfddd48c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 49/84] fix: keyword followed by a symbol as a hash key
 expression

---
 src/parser/literals.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index a805bcc..05a04ca 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -209,11 +209,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
             let ident_loc = self.loc();
             let mut symbol_flag = false;
-            let key = match self.peek()?.can_be_symbol() {
+            let tok = self.peek()?;
+            let key = match tok.can_be_symbol() {
                 Some(id) => {
                     let save = self.save_state();
                     self.get().unwrap();
-                    if self.consume_punct(Punct::Colon)? {
+                    // the colon of a symbol key touches the name.
+                    if !self.lexer.has_trailing_space(&tok)
+                        && self.consume_punct_no_term(Punct::Colon)?
+                    {
                         symbol_flag = true;
                         Node::new_symbol(id.to_owned(), ident_loc)
                     } else {
-- 
2.43.0


From 7f5565fb49dbd6e238597871699497ff51f6e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 50/84] fix: blanks after an escaped bracket or a nested class
 in a free-format regexp

---
 src/node.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 1edfb8f..75643e1 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -901,7 +901,8 @@ impl Node {
 enum FreeFormatMode {
     Normal,
     Escape,
-    CharacterClass,
+    CharacterClass(usize), // nesting level
+    EscapeInClass(usize),
     Comment,
 }
 struct FreeFormatContext {
@@ -925,7 +926,7 @@ impl FreeFormatContext {
                         self.state = FreeFormatMode::Comment;
                     } else if ch == '[' {
                         self.body.push(ch);
-                        self.state = FreeFormatMode::CharacterClass;
+                        self.state = FreeFormatMode::CharacterClass(1);
                     } else if ch == '\\' {
                         self.body.push(ch);
                         self.state = FreeFormatMode::Escape;
@@ -937,11 +938,20 @@ impl FreeFormatContext {
                     self.body.push(ch);
                     self.state = FreeFormatMode::Normal;
                 }
-                FreeFormatMode::CharacterClass => {
+                FreeFormatMode::CharacterClass(level) => {
                     self.body.push(ch);
-                    if ch == ']' {
-                        self.state = FreeFormatMode::Normal;
-                    }
+                    // a class may contain escaped brackets and other classes.
+                    self.state = match ch {
+                        '\\' => FreeFormatMode::EscapeInClass(level),
+                        '[' => FreeFormatMode::CharacterClass(level + 1),
+                        ']' if level == 1 => FreeFormatMode::Normal,
+                        ']' => FreeFormatMode::CharacterClass(level - 1),
+                        _ => FreeFormatMode::CharacterClass(level),
+                    };
+                }
+                FreeFormatMode::EscapeInClass(level) => {
+                    self.body.push(ch);
+                    self.state = FreeFormatMode::CharacterClass(level);
                 }
                 FreeFormatMode::Comment => {
                     if ch == '\n' {
-- 
2.43.0


From fc941194353ca2e5c890f04165b6556a5bafa65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 51/84] fix: character class of a regexp carried across an
 interpolation

---
 src/parser/lexer.rs    | 18 ++++++++++--------
 src/parser/literals.rs | 13 +++++++++----
 src/token.rs           |  6 +++---
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d6e5177..58bf303 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -180,14 +180,17 @@ impl<'a> Lexer<'a> {
     }
 
     /// Get token as a regular expression.
-    pub(crate) fn get_regexp(&mut self) -> Result<Token, LexerErr> {
-        match self.read_regexp_sub()? {
+    /// `level` is the nesting level of character classes, which are carried across interpolations.
+    pub(crate) fn get_regexp(&mut self, level: usize) -> Result<Token, LexerErr> {
+        match self.read_regexp_sub(level)? {
             InterpolateState::FinishedRegex {
                 body,
                 postfix,
                 free_format,
             } => Ok(self.new_regexlit(body, postfix, free_format)),
-            InterpolateState::NewInterpolation(s, _) => Ok(self.new_open_reg(s.as_string()?)),
+            InterpolateState::NewInterpolation(s, level) => {
+                Ok(self.new_open_reg(s.as_string()?, level))
+            }
             _ => unreachable!(),
         }
     }
@@ -991,9 +994,8 @@ impl<'a> Lexer<'a> {
     }
 
     /// Scan as regular expression.
-    fn read_regexp_sub(&mut self) -> Result<InterpolateState, LexerErr> {
+    fn read_regexp_sub(&mut self, mut char_class: usize) -> Result<InterpolateState, LexerErr> {
         let mut body = "".to_string();
-        let mut char_class = 0;
         loop {
             match self.get()? {
                 '/' => {
@@ -1058,7 +1060,7 @@ impl<'a> Lexer<'a> {
                 }
                 '#' => {
                     if self.is_interpolation() {
-                        return Ok(InterpolateState::NewInterpolation(body.into(), 0));
+                        return Ok(InterpolateState::NewInterpolation(body.into(), char_class));
                     }
                     body.push('#')
                 }
@@ -1515,8 +1517,8 @@ impl<'a> Lexer<'a> {
         Token::new_open_string(s, delimiter, level, self.cur_loc())
     }
 
-    fn new_open_reg(&self, s: String) -> Token {
-        Token::new_open_reg(s, self.cur_loc())
+    fn new_open_reg(&self, s: String, level: usize) -> Token {
+        Token::new_open_reg(s, level, self.cur_loc())
     }
 
     fn new_open_command(&self, s: String, delimiter: Option<char>, level: usize) -> Token {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 05a04ca..8049518 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -268,7 +268,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     pub(super) fn parse_regexp(&mut self) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
-        let tok = self.lexer.get_regexp()?;
+        let tok = self.lexer.get_regexp(0)?;
+        let mut level;
         let mut nodes = match tok.kind {
             TokenKind::Regex {
                 body: s,
@@ -282,12 +283,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     tok.loc,
                 ));
             }
-            TokenKind::OpenRegex(s) => vec![Node::new_string(s.into(), tok.loc)],
+            TokenKind::OpenRegex(s, next_level) => {
+                level = next_level;
+                vec![Node::new_string(s.into(), tok.loc)]
+            }
             _ => unreachable!(),
         };
         loop {
             self.parse_template(&mut nodes)?;
-            let tok = self.lexer.get_regexp()?;
+            let tok = self.lexer.get_regexp(level)?;
             let loc = tok.loc();
             match tok.kind {
                 TokenKind::Regex {
@@ -303,7 +307,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         start_loc.merge(loc),
                     ));
                 }
-                TokenKind::OpenRegex(s) => {
+                TokenKind::OpenRegex(s, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.into(), loc));
                 }
                 _ => unreachable!(),
diff --git a/src/token.rs b/src/token.rs
index afa69c4..17d4f03 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -59,7 +59,7 @@ pub(crate) enum TokenKind {
     Reserved(Reserved),
     Punct(Punct),
     OpenString(String, Option<char>, usize), // (content, delimiter, paren_level)
-    OpenRegex(String),
+    OpenRegex(String, usize),
     OpenCommand(String, Option<char>, usize),
     PercentNotation(char, String),
     LineTerm,
@@ -265,8 +265,8 @@ impl Token {
         Annot::new(TokenKind::OpenCommand(s.into(), delimiter, level), loc)
     }
 
-    pub(crate) fn new_open_reg(s: impl Into<String>, loc: Loc) -> Self {
-        Annot::new(TokenKind::OpenRegex(s.into()), loc)
+    pub(crate) fn new_open_reg(s: impl Into<String>, level: usize, loc: Loc) -> Self {
+        Annot::new(TokenKind::OpenRegex(s.into(), level), loc)
     }
 
     pub(crate) fn new_percent(kind: char, content: String, loc: Loc) -> Self {
-- 
2.43.0


From 6ffc3728fb505da16d99b63f906cbc7bf7453139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 52/84] fix: '_' in a number literal must be followed by a
 digit

---
 src/parser/lexer.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 58bf303..020e791 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -643,7 +643,7 @@ impl<'a> Lexer<'a> {
         loop {
             if let Some(ch) = self.consume_numeric() {
                 s.push(ch);
-            } else if self.consume('_') {
+            } else if self.consume_underscore(10)? {
             } else if !float_flag && self.peek() == Some('.') {
                 match self.peek2() {
                     Some(ch) if ch.is_ascii() && ch.is_numeric() => {
@@ -672,7 +672,7 @@ impl<'a> Lexer<'a> {
             loop {
                 if let Some(ch) = self.consume_numeric() {
                     s.push(ch);
-                } else if self.consume('_') {
+                } else if self.consume_underscore(10)? {
                 } else {
                     break;
                 }
@@ -713,7 +713,7 @@ impl<'a> Lexer<'a> {
                 _ => Self::error_parse("Numeric literal without digits.", self.pos),
             })?;
 
-        while self.consume_hex().is_some() || self.consume('_') {}
+        while self.consume_hex().is_some() || self.consume_underscore(16)? {}
 
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), 16) {
@@ -745,7 +745,10 @@ impl<'a> Lexer<'a> {
         };
         loop {
             match self.peek() {
-                Some(ch) if ch.is_digit(radix) || ch == '_' => self.get()?,
+                Some(ch) if ch.is_digit(radix) => {
+                    self.get()?;
+                }
+                _ if self.consume_underscore(radix)? => {}
                 _ => break,
             };
         }
@@ -759,6 +762,21 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Consume '_' in a number literal. It must be followed by a digit.
+    fn consume_underscore(&mut self, radix: u32) -> Result<bool, LexerErr> {
+        if !self.consume('_') {
+            return Ok(false);
+        }
+        match self.peek() {
+            Some(ch) if ch.is_digit(radix) => Ok(true),
+            Some(_) => Err(Self::error_parse(
+                "Trailing '_' in number literal.",
+                self.pos,
+            )),
+            None => Err(Self::error_eof(self.pos)),
+        }
+    }
+
     /// Read string literal ("..", %Q{..}, %{..})
     pub(crate) fn read_string_literal_double(
         &mut self,
-- 
2.43.0


From 169b729a44523d5264d3e1599c043144b11b2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 53/84] fix: integer literals with a leading zero are octal

---
 src/parser/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 020e791..f2bf19a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -636,6 +636,9 @@ impl<'a> Lexer<'a> {
                 return self.read_octal_number();
             } else if self.consume('b') {
                 return self.read_bin_number();
+            } else if self.peek_digit() || self.consume_underscore(8)? {
+                // a leading zero means octal.
+                return self.read_octal_number();
             }
         };
         let mut s = ch.to_string();
-- 
2.43.0


From 9a9b7d487580aa3b8a364d80ed0037da35364e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 54/84] fix: imaginary suffix of hexadecimal, octal and binary
 literals

---
 src/parser/lexer.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f2bf19a..0e66994 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -696,14 +696,18 @@ impl<'a> Lexer<'a> {
                 None => return Err(Self::error_parse("Invalid number literal.", self.pos)),
             }
         };
+        Ok(self.new_number(number))
+    }
+
+    /// Generate a token of the number, checking the suffix for imaginary numbers.
+    fn new_number(&mut self, number: NReal) -> Token {
         if self.consume('i') {
-            Ok(self.new_imaginarylit(number))
-        } else {
-            match number {
-                NReal::Bignum(n) => Ok(self.new_bignumlit(n)),
-                NReal::Integer(i) => Ok(self.new_numlit(i)),
-                NReal::Float(f) => Ok(self.new_floatlit(f)),
-            }
+            return self.new_imaginarylit(number);
+        }
+        match number {
+            NReal::Bignum(n) => self.new_bignumlit(n),
+            NReal::Integer(i) => self.new_numlit(i),
+            NReal::Float(f) => self.new_floatlit(f),
         }
     }
 
@@ -721,8 +725,8 @@ impl<'a> Lexer<'a> {
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), 16) {
             Some(b) => match b.to_i64() {
-                Some(i) => Ok(self.new_numlit(i)),
-                None => Ok(self.new_bignumlit(b)),
+                Some(i) => Ok(self.new_number(NReal::Integer(i))),
+                None => Ok(self.new_number(NReal::Bignum(b))),
             },
             None => Err(Self::error_parse("Invalid hex number literal.", self.pos)),
         }
@@ -758,8 +762,8 @@ impl<'a> Lexer<'a> {
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), radix) {
             Some(b) => match b.to_i64() {
-                Some(i) => Ok(self.new_numlit(i)),
-                None => Ok(self.new_bignumlit(b)),
+                Some(i) => Ok(self.new_number(NReal::Integer(i))),
+                None => Ok(self.new_number(NReal::Bignum(b))),
             },
             None => Err(Self::error_parse("Invalid number literal.", self.pos)),
         }
-- 
2.43.0


From fd6bb5fcc7e0c7ace7efcea002852d595fa7e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 55/84] fix: keyword directly after a number is not an
 imaginary suffix

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0e66994..fb7545b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -701,7 +701,9 @@ impl<'a> Lexer<'a> {
 
     /// Generate a token of the number, checking the suffix for imaginary numbers.
     fn new_number(&mut self, number: NReal) -> Token {
-        if self.consume('i') {
+        // 'i' may be the head of a keyword. e.g. "1if a"
+        let is_ident = |ch: char| ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii();
+        if !self.peek2().map_or(false, is_ident) && self.consume('i') {
             return self.new_imaginarylit(number);
         }
         match number {
-- 
2.43.0


From 4de871b9696c3256769020b53aab86f29de4cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 56/84] fix: character literal as the first argument of a
 command call

---
 src/parser/expression.rs |  1 +
 src/parser/lexer.rs      | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 106db76..6aa3840 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1172,6 +1172,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | Punct::BitAnd
                     | Punct::Rem
                     | Punct::Shl => !self.lexer.has_trailing_space(&tok),
+                    Punct::Question => self.lexer.is_char_literal(&tok),
                     _ => false,
                 },
                 TokenKind::Reserved(r) => !matches!(
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index fb7545b..91fb254 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -179,6 +179,19 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine whether the token '?' is the head of a character literal ("?a", "?\n") or not.
+    pub(crate) fn is_char_literal(&self, tok: &Token) -> bool {
+        let is_ident = |ch: char| ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii();
+        let mut iter = self.code[tok.loc.1 + 1..].chars();
+        match iter.next() {
+            Some('\\') => true,
+            Some(ch) if !ch.is_ascii_whitespace() => {
+                !(is_ident(ch) && iter.next().map_or(false, is_ident))
+            }
+            _ => false,
+        }
+    }
+
     /// Get token as a regular expression.
     /// `level` is the nesting level of character classes, which are carried across interpolations.
     pub(crate) fn get_regexp(&mut self, level: usize) -> Result<Token, LexerErr> {
-- 
2.43.0


From ccf0e1b8ae9e93a1351d1cdfb9b9970b3d01c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 57/84] fix: unary ~ as the first argument of a command call

---
 src/parser/expression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6aa3840..e766e4c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1160,9 +1160,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match tok.kind {
                 TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
-                        true
-                    }
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
-- 
2.43.0


From aee819c4591a249d8f419bdae698532b448527a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 58/84] fix: unterminated literal after an identifier skipped
 instead of reported

---
 src/parser/lexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 91fb254..cd34f46 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -127,8 +127,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -138,14 +139,14 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let res = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 8ed6c745117099eaba820b7346a49319e68dcbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 59/84] fix: backslash at the end of the input reported as a
 syntax error, not as incomplete

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cd34f46..10c7d01 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -329,6 +329,8 @@ impl<'a> Lexer<'a> {
                         }
                     }
                     '?' => return Ok(self.new_punct(Punct::Question)),
+                    // the newline of a continued line is yet to come.
+                    '\\' if self.peek().is_none() => return Err(Self::error_eof(self.pos)),
                     '\\' => return Ok(self.new_punct(Punct::Backslash)),
                     '=' => {
                         if self.consume('=') {
-- 
2.43.0


From 900c76d0f9fd8a5b31f81d43d7662472643e4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 60/84] fix: location of a %r literal excludes its flags

---
 src/parser/literals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8049518..4ab2c2a 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -115,7 +115,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 'r' => {
                     let ary = vec![Node::new_string(content.into(), loc)];
                     let (op, free_format) = self.lexer.check_postfix();
-                    Ok(Node::new_regexp(ary, op, free_format, tok.loc))
+                    let loc = loc.merge(self.lexer.cur_loc());
+                    Ok(Node::new_regexp(ary, op, free_format, loc))
                 }
                 _ => Err(error_unexpected(loc, "Unsupported % notation.")),
             }
-- 
2.43.0


From 78671c455220fc8268736f02256649050364573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 61/84] fix: regexp and percent literal starting with '=' at
 the start of an operand rejected

---
 src/parser/expression.rs | 9 +++++++++
 src/parser/lexer.rs      | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e766e4c..91d562a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -815,6 +815,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
+                // at the start of an operand, `=` belongs to the literal.
+                Punct::AssignOp(BinOp::Div) => {
+                    self.lexer.unget_assign();
+                    self.parse_regexp()
+                }
+                Punct::AssignOp(BinOp::Rem) => {
+                    self.lexer.unget_assign();
+                    self.parse_percent_notation()
+                }
                 Punct::Question => self.parse_char_literal(),
                 Punct::Shl => self.parse_heredocument(),
                 Punct::Mul => {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 10c7d01..db5a297 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -209,6 +209,11 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Step back over the `=` of an assignment operator just read.
+    pub(crate) fn unget_assign(&mut self) {
+        self.pos -= 1;
+    }
+
     pub(crate) fn save_state(&self) -> (usize, usize) {
         (self.token_start_pos, self.pos)
     }
-- 
2.43.0


From dc8acbd339ac0e9d9ee28b51164ded8c9a689596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 62/84] fix: for loop taken as a scope for numbered parameters

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d27d969..07e68be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -230,11 +230,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     /// Check whether numbered parameters exist in outer blocks.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
-        //let mut outer = 0;
-        if let Some(loc) = self.scope.last_mut().unwrap().lvar.prohibit_numbered_param {
+        // `for` does not make a scope for numbered parameters.
+        let mut scopes = self
+            .scope
+            .iter_mut()
+            .rev()
+            .filter(|c| c.kind != ScopeKind::For);
+        let current = scopes.next().unwrap();
+        if let Some(loc) = current.lvar.prohibit_numbered_param {
             return Err(error_nested_numbered_param(loc));
         }
-        for c in self.scope.iter_mut().rev().skip(1) {
+        for c in scopes {
             if let Some(loc) = c.lvar.numbered_param {
                 return Err(error_nested_numbered_param(loc));
             }
@@ -244,11 +250,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             match c.kind {
                 ScopeKind::Block => {} //outer += 1,
-                ScopeKind::For => {}
                 _ => break,
             }
         }
-        self.scope.last_mut().unwrap().lvar.numbered_param = Some(loc);
+        current.lvar.numbered_param = Some(loc);
         /*if let Some(a) = &self.extern_context {
             return a.find_lvar(id);
         }*/
-- 
2.43.0


From a7f5a3a405e7dd68dfb29a193dab59b780095e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 63/84] fix: location of a top-level constant excludes its name

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 91d562a..27c53fc 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -811,7 +811,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Punct::Arrow => self.parse_lambda_literal(),
                 Punct::Scope => {
                     let name = self.expect_const()?;
-                    Ok(Node::new_const(name, true, None, vec![], loc))
+                    Ok(Node::new_const(name, true, None, vec![], loc.merge(self.prev_loc())))
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
-- 
2.43.0


From b9583002af373761ef94ea13312c82f8404eba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 64/84] fix: unclosed parenthesis accepted in the variables of
 a for loop

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index ad1c2b7..e26b2ed 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -92,6 +92,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
             if !self.consume_punct(Punct::Comma)? {
+                if let Some(term) = terminator {
+                    self.expect_punct(term)?;
+                }
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From 7c25a383badc3d01ceced029a44ba1c9e3b4fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 65/84] fix: location of a for loop excludes its head and its
 end

---
 src/parser/flow_control.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index e26b2ed..99e8fd3 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -75,7 +75,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // for <ident>, .. in <iter> do
         //   COMP_STMT
         // end
-        //let loc = self.prev_loc();
+        let loc = self.prev_loc();
         let mut vars = vec![];
         let terminator = if self.consume_punct(Punct::LParen)? {
             Some(Punct::RParen)
@@ -109,7 +109,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let iter = self.parse_expr()?;
         self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
-        let loc = self.prev_loc();
 
         self.scope.push(LvarScope::new_for());
         self.loop_stack.push(LoopKind::For);
@@ -123,10 +122,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.loop_stack.pop().unwrap();
         let lvar = self.scope.pop().unwrap().lvar;
 
-        let loc = loc.merge(self.prev_loc());
         let body = BlockInfo::new(formal_params, body, lvar, self.prev_loc());
 
         self.expect_reserved(Reserved::End)?;
+        let loc = loc.merge(self.prev_loc());
         let node = Node::new(
             NodeKind::For {
                 param: vars,
-- 
2.43.0


From c505c5fc026a8e745cf4cc90b590b53365631c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 66/84] fix: case without a when clause accepted

---
 src/parser/flow_control.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 99e8fd3..99e86d8 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -148,11 +148,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         self.consume_term()?;
         let mut when_ = vec![];
-        while self.consume_reserved(Reserved::When)? {
+        self.expect_reserved(Reserved::When)?;
+        loop {
             let arg = self.parse_mul_assign_rhs(None)?;
             self.parse_then()?;
             let body = self.parse_comp_stmt()?;
             when_.push(CaseBranch::new(arg, body));
+            if !self.consume_reserved(Reserved::When)? {
+                break;
+            }
         }
         let else_ = if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
-- 
2.43.0


From b6dd155038f02932111235cd656c4781fcb34f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 67/84] fix: A line may begin with a safe navigation operator

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 27c53fc..b3ec756 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -553,7 +553,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-            } else if self.consume_punct_no_term(Punct::SafeNav)? {
+            } else if self.consume_punct(Punct::SafeNav)? {
                 self.parse_primary_method(node, true)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 if let TokenKind::Const(_) = self.peek()?.kind {
-- 
2.43.0


From a2b7aab29ccee4981db088fd1fe5c286da211216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 68/84] fix: A block argument may follow the pairs of a hash in
 an argument list

---
 src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b3ec756..03173b6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -998,6 +998,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                     }
                                 }
                             };
+                            if self.consume_punct(Punct::BitAnd)? {
+                                // block argument
+                                arglist.block = Some(Box::new(self.parse_arg()?));
+                                break;
+                            }
                             let key = self.parse_arg()?;
                             self.expect_punct(Punct::FatArrow)?;
                             let value = self.parse_arg()?;
-- 
2.43.0


From 6702b3e09974fec873901aa7652aa6b6de68987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 69/84] fix: The location of a call of the form Foo::Bar() is
 that of its name

---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 03173b6..73603c9 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -559,10 +559,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if let TokenKind::Const(_) = self.peek()?.kind {
                     let loc = node.loc;
                     let name = self.expect_const()?;
+                    let call_loc = self.prev_loc();
                     if self.consume_punct_no_term(Punct::LParen)? {
                         // Foo::Bar()
                         let arglist = self.parse_arglist_block(Punct::RParen)?;
-                        Node::new_mcall(node, name, arglist, false, self.prev_loc())
+                        Node::new_mcall(node, name, arglist, false, call_loc)
                     } else if let NodeKind::Const {
                         toplevel,
                         parent,
-- 
2.43.0


From 5fa6c780bf3c234d2c3fa2cc66fbfe5fbcfaf6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 70/84] fix: Names of global and instance variables begin with
 a letter or an underscore and are read to their end

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index db5a297..4704d29 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -449,7 +449,7 @@ impl<'a> Lexer<'a> {
             Ok(self.new_special_var(id.saturating_add(100)))
         } else {
             let tok = match self.peek() {
-                Some(ch) if ch.is_ascii_punctuation() => {
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                     let ch = self.get()?;
                     match ch {
                         '&' => self.new_special_var(SPECIAL_LASTMATCH),
@@ -482,7 +482,7 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
+                        if ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii() {
                         } else {
                             return Err(self.error_unexpected(pos));
                         }
@@ -623,7 +623,7 @@ impl<'a> Lexer<'a> {
                 self.consume('@');
                 self.consume('@');
                 let ch = self.get()?;
-                if !ch.is_ascii_alphabetic() && ch != '_' {
+                if !ch.is_ascii_alphabetic() && ch != '_' && ch.is_ascii() {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-- 
2.43.0


From 85cb448a6dd46f58547b02fd562a23e1df67578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 71/84] fix: A capitalized name with ? or ! is not a constant

---
 src/parser/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4704d29..ff89829 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -531,7 +531,8 @@ impl<'a> Lexer<'a> {
             return Ok(self.new_reserved(reserved));
         };
 
-        if is_const {
+        // "Foo?" and "Foo!" are names of methods.
+        if is_const && !tok.ends_with(['?', '!']) {
             Ok(self.new_const(tok))
         } else {
             Ok(self.new_ident(tok))
-- 
2.43.0


From 16510307a916fd8fb9d98e79f2179da4b1891260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 72/84] fix: Only names of variables are accepted as parameters
 and variables of a for loop

---
 src/parser.rs              | 39 ++++++++++++++++++++++++++++++++++----
 src/parser/flow_control.rs |  2 +-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 07e68be..1535169 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -326,6 +326,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match self.peek()?.kind {
             TokenKind::Ident(s) => {
                 self.get()?;
+                self.check_var_name(&s)?;
                 Ok(Some(s))
             }
             TokenKind::NumberedParam(i, _) => Err(error_numbered_param(self.prev_loc(), i)),
@@ -441,6 +442,28 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Get the next token and examine whether it can be the name of a variable.
+    fn expect_var_name(&mut self) -> Result<String, LexerErr> {
+        let name = self.expect_ident()?;
+        self.check_var_name(&name)?;
+        Ok(name)
+    }
+
+    /// Examine whether `name` (the previous token) can be the name of a variable.
+    fn check_var_name(&self, name: &str) -> Result<(), LexerErr> {
+        match name {
+            "self" | "nil" | "true" | "false" | "__LINE__" | "__FILE__" => Err(error_unexpected(
+                self.prev_loc(),
+                format!("Can't assign to {name}."),
+            )),
+            _ if name.ends_with(['?', '!']) => Err(error_unexpected(
+                self.prev_loc(),
+                "Expect the name of a variable.",
+            )),
+            _ => Ok(()),
+        }
+    }
+
     /// Get the next token and examine whether it is Const.
     /// Return IdentId of the Const.
     /// If not, return RubyError.
@@ -618,7 +641,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             } else if self.consume_punct(Punct::BitAnd)? {
                 // Block param
-                let name = self.expect_ident()?;
+                let name = self.expect_var_name()?;
                 loc = loc.merge(self.prev_loc());
                 args.push(FormalParam::block(name.clone(), loc));
                 self.new_block_param(name, loc)?;
@@ -643,7 +666,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             } else if self.consume_punct(Punct::DMul)? {
                 // Keyword rest param
-                let name = self.expect_ident()?;
+                let name = self.expect_var_name()?;
                 loc = loc.merge(self.prev_loc());
                 if state >= Kind::KWRest {
                     return Err(error_unexpected(
@@ -658,6 +681,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.new_kwrest_param(name, self.prev_loc())?;
             } else {
                 let name = self.expect_ident()?;
+                // "nil: 1" is a keyword parameter.
+                if !matches!(
+                    self.peek()?.kind,
+                    TokenKind::Punct(Punct::Colon) | TokenKind::Eof
+                ) || name.ends_with(['?', '!'])
+                {
+                    self.check_var_name(&name)?;
+                }
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
                     self.new_param(name.clone(), loc)?;
@@ -763,7 +794,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
         let loc = self.loc();
-        let name = self.expect_ident()?;
+        let name = self.expect_var_name()?;
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
         while self.consume_punct(Punct::Comma)? {
@@ -771,7 +802,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 return Ok(FormalParam::destruct_param(idents));
             }
             let loc = self.loc();
-            let name = self.expect_ident()?;
+            let name = self.expect_var_name()?;
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
         }
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 99e86d8..18a31c6 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -83,7 +83,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         loop {
-            let name = self.expect_ident()?;
+            let name = self.expect_var_name()?;
             let outer = self.add_local_var_if_new(&name);
             vars.push((outer, name));
             if let Some(term) = terminator {
-- 
2.43.0


From 5eb007fa404634361d30b9e3cc3387b700a28ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 73/84] fix: Any name or string can be the label of a keyword
 argument, and it touches its colon

---
 src/parser/expression.rs | 32 ++++++++++++++++++--------------
 src/parser/lexer.rs      |  6 ++++++
 src/token.rs             |  1 -
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 73603c9..b14703e 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -983,6 +983,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct(Punct::BitAnd)? {
                 // block argument
                 arglist.block = Some(Box::new(self.parse_arg()?));
+            } else if let Some(name) = self.consume_label()? {
+                // keyword args
+                arglist.kw_args.push((name, self.parse_arg()?));
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
@@ -1020,20 +1023,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     arglist.args.push(node);
                     return Ok(arglist);
                 }
-                match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
-                        if self.consume_punct_no_term(Punct::Colon)? {
-                            // keyword args
-                            arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-                        } else {
-                            // positional args
-                            arglist.args.push(node);
-                        }
-                    }
-                    _ => {
-                        arglist.args.push(node);
-                    }
-                }
+                // positional args
+                arglist.args.push(node);
             }
             if !self.consume_punct(Punct::Comma)? {
                 break;
@@ -1050,6 +1041,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(arglist)
     }
 
+    /// Consume the label of a keyword argument (`name:`), if any.
+    fn consume_label(&mut self) -> Result<Option<String>, LexerErr> {
+        let tok = self.peek()?;
+        match tok.can_be_symbol() {
+            Some(name) if self.lexer.is_label(&tok) => {
+                self.get()?;
+                self.expect_punct(Punct::Colon)?;
+                Ok(Some(name.to_owned()))
+            }
+            _ => Ok(None),
+        }
+    }
+
     pub(super) fn parse_begin(&mut self) -> Result<Node, LexerErr> {
         // begin式 :: "begin"  複合文  rescue節*  else節?  ensure節?  "end"
         // rescue節 :: "rescue" [行終端子禁止] 例外クラスリスト?  例外変数代入?  then節
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ff89829..8f06265 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -180,6 +180,12 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine whether ':' (not '::') follows the token immediately or not.
+    pub(crate) fn is_label(&self, tok: &Token) -> bool {
+        let mut iter = self.code.get(tok.loc.1 + 1..).unwrap_or("").chars();
+        iter.next() == Some(':') && iter.next() != Some(':')
+    }
+
     /// Examine whether the token '?' is the head of a character literal ("?a", "?\n") or not.
     pub(crate) fn is_char_literal(&self, tok: &Token) -> bool {
         let is_ident = |ch: char| ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii();
diff --git a/src/token.rs b/src/token.rs
index 17d4f03..99b8039 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -310,7 +310,6 @@ impl Token {
             TokenKind::Ident(ident) => ident,
             TokenKind::NumberedParam(_, ident) => ident,
             TokenKind::Const(ident) => ident,
-            TokenKind::InstanceVar(ident) => ident,
             TokenKind::StringLit(ident) => match ident.as_str() {
                 Ok(s) => s,
                 Err(_) => return None,
-- 
2.43.0


From ec14be643a7e8d624137e32ae0346cd28199fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 74/84] fix: Parameters without parentheses end with a
 separator

---
 src/parser/define.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index e273687..71c1f4e 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -189,7 +189,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         let args = self.parse_formal_params(term)?;
-        self.consume_term()?;
+        if !self.consume_term()? && term.is_none() {
+            // parameters without parentheses end with a separator.
+            return Err(error_unexpected(self.loc(), "Expected ';' or newline."));
+        }
         Ok(args)
     }
 
-- 
2.43.0


From 7ffcf6b905408be58f752d7bf732dd36b4113bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 75/84] fix: A superclass and the object of a singleton class
 end with a separator

---
 src/parser/define.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 71c1f4e..6fa327b 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -131,7 +131,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else {
             None
         };
-        self.consume_term()?;
+        if !self.consume_term()? && superclass.is_some() {
+            return Err(error_unexpected(self.loc(), "Expected ';' or newline."));
+        }
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
@@ -151,7 +153,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // end
         let singleton = self.parse_expr()?;
         let loc = loc.merge(self.prev_loc());
-        self.consume_term()?;
+        if !self.consume_term()? {
+            return Err(error_unexpected(self.loc(), "Expected ';' or newline."));
+        }
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
-- 
2.43.0


From 3ed93c143639bf391bfe9855865fffa49a0eae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 76/84] fix: Positional arguments come before keyword
 arguments, and nothing follows ...

---
 src/parser/expression.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b14703e..5d3762f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -929,7 +929,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     ) -> Result<ArgList, LexerErr> {
         let mut arglist = self.parse_arglist(delimiter)?;
         if let Some(actual_block) = self.parse_block()? {
-            if arglist.block.is_some() {
+            if arglist.block.is_some() || arglist.forwarding {
                 return Err(error_unexpected(
                     actual_block.loc(),
                     "Both block arg and actual block given.",
@@ -968,12 +968,20 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
             }
+            // only other keyword arguments, pairs and a block may follow a keyword argument.
+            let after_kw = !arglist.kw_args.is_empty() || !arglist.hash_splat.is_empty();
             if self.consume_punct(Punct::Range3)? {
+                if after_kw {
+                    return Err(error_unexpected(self.prev_loc(), "unexpected '...'."));
+                }
                 self.check_forwarding()?;
                 arglist.forwarding = true;
             } else if self.consume_punct(Punct::Mul)? {
                 // splat argument
                 let loc = self.prev_loc();
+                if after_kw {
+                    return Err(error_unexpected(loc, "unexpected '*'."));
+                }
                 let array = self.parse_arg()?;
                 arglist.splat = true;
                 arglist.args.push(Node::new_splat(array, loc));
@@ -1024,13 +1032,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 // positional args
+                if after_kw {
+                    return Err(self.error_unexpected_or_eof("Expected '=>'."));
+                }
                 arglist.args.push(node);
             }
             if !self.consume_punct(Punct::Comma)? {
                 break;
             } else {
                 let loc = self.prev_loc();
-                if arglist.block.is_some() {
+                if arglist.block.is_some() || arglist.forwarding {
                     return Err(error_unexpected(loc, "unexpected ','."));
                 };
             }
-- 
2.43.0


From cd3eace49096062fc8a3c91132e768afed1a2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 77/84] fix: yield takes no block argument

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5d3762f..7776088 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -605,6 +605,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else {
             ArgList::default()
         };
+        if let Some(block) = &args.block {
+            return Err(error_unexpected(
+                block.loc(),
+                "Block argument should not be given.",
+            ));
+        }
         Ok(Node::new_yield(args, loc))
     }
 
-- 
2.43.0


From 8f5b8da192f290ce8a8409fa9b365bae207af05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 78/84] fix: An argument list in parentheses does not begin
 with a comma

---
 src/parser/expression.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7776088..5c63711 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -965,9 +965,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_arglist_sub(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
-        if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
-            return Ok(arglist);
-        }
         loop {
             if let Some(punct) = punct {
                 if self.consume_punct(punct)? {
-- 
2.43.0


From 5fd62311b520eedbdfedc549f525a8effe773f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 79/84] fix: <=> has the precedence of == and does not
 associate

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5c63711..c64f835 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -314,6 +314,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct_no_term(Punct::TEq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Match)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Match, lhs, rhs))
@@ -345,9 +348,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From 34a5ef3710ab395d1f504f8248c3783ee8d4e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 80/84] fix: A rescue modifier after an assignment guards the
 assigned value

---
 src/parser/expression.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c64f835..6face15 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -242,7 +242,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         if self.consume_punct_no_term(Punct::Assign)? {
             let lhs = self.check_lhs(lhs)?;
-            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+            let mrhs = self.parse_assign_rhs()?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -252,6 +252,31 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Parse rhs of an assignment to a single target.
+    fn parse_assign_rhs(&mut self) -> Result<Vec<Node>, LexerErr> {
+        let mut mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+        if mrhs.len() == 1 && !matches!(mrhs[0].kind, NodeKind::Splat(_)) {
+            let rhs = mrhs.pop().unwrap();
+            mrhs.push(self.parse_rescue_rhs(rhs)?);
+        }
+        Ok(mrhs)
+    }
+
+    /// A single value which is assigned takes a rescue modifier.
+    /// RHS : ARG | ARG [no term] rescue ARG
+    fn parse_rescue_rhs(&mut self, rhs: Node) -> Result<Node, LexerErr> {
+        if !self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
+            return Ok(rhs);
+        }
+        let rescue = self.parse_arg()?;
+        Ok(Node::new_begin(
+            rhs,
+            vec![RescueEntry::new_postfix(rescue)],
+            None,
+            None,
+        ))
+    }
+
     fn parse_arg_ternary(&mut self) -> Result<Node, LexerErr> {
         let cond = self.parse_arg_range()?;
         let loc = cond.loc();
@@ -468,7 +493,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
                 let lhs = self.check_lhs(lhs)?;
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+                let mrhs = self.parse_assign_rhs()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -485,6 +510,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.get()?;
                 let lhs = self.check_lhs(lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rescue_rhs(rhs)?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
@@ -493,6 +519,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.get()?;
                 let lhs = self.check_lhs(lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rescue_rhs(rhs)?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
-- 
2.43.0


From 8945271eb33c775ea4c2af1d78823087a405c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 81/84] fix: The variables which hold the results of a match
 are not assignable

---
 src/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 75643e1..ab0433e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -361,11 +361,14 @@ impl Node {
             NodeKind::LocalVar(..)
             | NodeKind::InstanceVar(_)
             | NodeKind::ClassVar(_)
-            | NodeKind::GlobalVar(_)
-            | NodeKind::SpecialVar(_)
             | NodeKind::Const { .. }
             | NodeKind::Index { .. }
             | NodeKind::DiscardLhs => true,
+            // the results of a match can not be set.
+            NodeKind::GlobalVar(name) => !matches!(name.as_str(), "$`" | "$+"),
+            NodeKind::SpecialVar(id) => {
+                matches!(*id, SPECIAL_LOADPATH | SPECIAL_LOADEDFEATURES)
+            }
             NodeKind::MethodCall {
                 method, arglist, ..
             } => {
-- 
2.43.0


From ec17f9b96181ef10d16e9aff87f96b833e2b9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 82/84] fix: A parenthesis after a space begins the first
 argument of a method call, super or yield

---
 src/parser/expression.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6face15..f94f20f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -623,9 +623,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Consume a parenthesis which opens an argument list.
+    /// If a space precedes it, it begins the first argument.
+    fn consume_arg_paren(&mut self) -> Result<bool, LexerErr> {
+        Ok(self.lexer.trailing_lparen() && self.consume_punct_no_term(Punct::LParen)?)
+    }
+
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let args = if self.consume_punct_no_term(Punct::LParen)? {
+        let args = if self.consume_arg_paren()? {
             self.parse_arglist(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist(None)?
@@ -643,7 +649,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_super(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.consume_arg_paren()? {
             self.parse_arglist_block(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist_block(None)?
@@ -681,7 +687,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.consume_arg_paren()? {
             self.parse_arglist_block(Punct::RParen)?
         } else {
             if self.is_command() {
-- 
2.43.0


From 32a76c7d7e1f19e09f5fcc2c0ce4a7e850594184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 83/84] fix: A line continuation after a word separates it from
 what follows

---
 src/parser/lexer.rs    | 3 ++-
 src/parser/literals.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 8f06265..184c805 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -152,9 +152,10 @@ impl<'a> Lexer<'a> {
     }
 
     /// Examine if the next char is a whitespace or not.
+    /// (a line continuation counts as one)
     pub(crate) fn trailing_space(&self) -> bool {
         match self.peek() {
-            Some(ch) => ch.is_ascii_whitespace(),
+            Some(ch) => ch.is_ascii_whitespace() || ch == '\\',
             _ => false,
         }
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 4ab2c2a..f361012 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -216,7 +216,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let save = self.save_state();
                     self.get().unwrap();
                     // the colon of a symbol key touches the name.
-                    if !self.lexer.has_trailing_space(&tok)
+                    if self.lexer.is_label(&tok)
                         && self.consume_punct_no_term(Punct::Colon)?
                     {
                         symbol_flag = true;
-- 
2.43.0


From f07bd5de4470be48908407db840285b55de45e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 84/84] fix: require the separator of a singleton definition,
 and take :: and pseudo variables

---
 src/parser/define.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 6fa327b..11a5e2e 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -15,37 +15,49 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = tok.loc;
         let (singleton, name) = match tok.kind {
             TokenKind::GlobalVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                self.expect_singleton_separator()?;
                 (
                     Some(Node::new_global_var(name, loc)),
                     self.read_method_name(true)?.0,
                 )
             }
             TokenKind::InstanceVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                self.expect_singleton_separator()?;
                 (
                     Some(Node::new_instance_var(name, loc)),
                     self.read_method_name(true)?.0,
                 )
             }
             TokenKind::ClassVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                self.expect_singleton_separator()?;
                 (
                     Some(Node::new_class_var(name, loc)),
                     self.read_method_name(true)?.0,
                 )
             }
+            TokenKind::SpecialVar(id @ (SPECIAL_LOADPATH | SPECIAL_LOADEDFEATURES)) => {
+                self.expect_singleton_separator()?;
+                (
+                    Some(Node::new_special_var(id, loc)),
+                    self.read_method_name(true)?.0,
+                )
+            }
             TokenKind::Reserved(r) => (None, self.read_method_ext(r.to_str().to_string())?),
             TokenKind::Ident(s) => {
                 if s.as_str() == "self" {
-                    self.consume_punct_no_term(Punct::Dot)?;
+                    self.expect_singleton_separator()?;
                     (Some(Node::new_self(loc)), self.read_method_name(true)?.0)
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    let receiver = match self.is_local_var(&s) {
-                        Some(outer) => Node::new_lvar(s, outer, loc),
-                        None => Node::new_fcall_noarg(s, false, loc),
+                    let receiver = match s.as_str() {
+                        "nil" => Node::new_nil(loc),
+                        "true" => Node::new_bool(true, loc),
+                        "false" => Node::new_bool(false, loc),
+                        _ => match self.is_local_var(&s) {
+                            Some(outer) => Node::new_lvar(s, outer, loc),
+                            None => Node::new_fcall_noarg(s, false, loc),
+                        },
                     };
                     (Some(receiver), self.read_method_name(true)?.0)
                 } else {
@@ -166,6 +178,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_singleton_class_decl(singleton, body, lvar, loc))
     }
 
+    /// `.` or `::` between the receiver and the name of a singleton method.
+    fn expect_singleton_separator(&mut self) -> Result<(), LexerErr> {
+        if self.consume_punct_no_term(Punct::Scope)? {
+            Ok(())
+        } else {
+            self.expect_punct(Punct::Dot)
+        }
+    }
+
     pub(crate) fn alias_name(&mut self) -> Result<Node, LexerErr> {
         if self.consume_punct_no_term(Punct::Colon)? {
             self.parse_symbol()
-- 
2.43.0

