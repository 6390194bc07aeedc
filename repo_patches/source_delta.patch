From 3ebbaf95408ac0fb33c39a569f71d88133ab1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 01/45] fix: report an unexpected end of input instead of
 panicking when a token is cut off

---
 src/parser/lexer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..0913c67 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -83,13 +83,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
         let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From e5d35d26a8a0ec3300f33cd1b1f71184c9c564e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 02/45] fix: accept a unary minus before a non-literal operand
 of '!', '~' and '**'

---
 src/parser/expression.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..16f1420 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -755,14 +755,28 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                Punct::Minus => match self.peek_no_term()?.kind {
+                    TokenKind::IntegerLit(num) => {
+                        self.get()?;
+                        match num.checked_neg() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        }
+                    }
+                    TokenKind::BignumLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_bignum(-num, loc))
+                    }
+                    TokenKind::FloatLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_float(-num, loc))
+                    }
+                    _ => {
+                        // operand of '-' is not a numeric literal. (e.g. "!-a", "2 ** -x")
+                        let operand = self.parse_unary()?;
+                        let loc = loc.merge(operand.loc());
+                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
+                    }
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From 9f0d99cd1c61078c425c1ecbb788302d7456e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 03/45] fix: accept class variables and special variables in
 string templates

---
 src/parser/literals.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..241e6a2 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -331,7 +331,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
+                kind => {
+                    return Err(error_unexpected(
+                        loc,
+                        format!("Unexpected token in a template: {:?}", kind),
+                    ))
+                }
             };
             nodes.push(node);
         };
-- 
2.43.0


From be3bbf2c4aa3048d188d36f4ad6aac949a2f7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 04/45] fix: accept an interpolation in a here document of a
 command

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 241e6a2..cb18cd8 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -165,7 +165,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From 7d55ba07b376533179cc8cd9e78cdcaa6d68baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 05/45] fix: keep local variables defined in an interpolation
 of a here document

---
 src/parser/literals.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index cb18cd8..659c226 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -132,13 +132,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ),
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_double();
-                res?
+                let node = parser.here_double()?;
+                // local variables may be defined in the interpolations.
+                self.scope = parser.scope;
+                node
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_command();
-                res?
+                let node = parser.here_command()?;
+                self.scope = parser.scope;
+                node
             }
         };
         Ok(node)
-- 
2.43.0


From c610ce4febac0c164ad3a47ed9674ca4218d6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 06/45] fix: discard peeked tokens when the parser backtracks

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..2f349b1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -111,6 +111,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn restore_state(&mut self, state: (usize, usize)) {
+        // tokens peeked after `state` are not valid any more.
+        self.lexer.flush();
         self.lexer.restore_state(state);
     }
 
-- 
2.43.0


From b28d635d174e721f4dae7937764b606a4a3ae626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 07/45] fix: require the closing parenthesis of an argument
 list

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 16f1420..0666818 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -918,7 +918,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         let punct = punct.into();
         let mut arglist = ArgList::default();
-        if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
+        if punct.is_none() && self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
         }
         loop {
@@ -968,7 +968,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -999,7 +999,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From adf7b042008b34697cd8b3cbb0fdb012d3ad6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 08/45] fix: keep the safe navigation operator of a command
 call and of '&.()'

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0666818..7d82f4a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -618,7 +618,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -630,7 +630,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From 1a59e1c98115c8534cdadf13bcbcca28bb61d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 09/45] fix: stay in 'defined?' after a nested 'defined?'

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7d82f4a..f4c4070 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -863,9 +863,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Begin => self.parse_begin(),
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
-                        self.defined_mode = true;
+                        let old = std::mem::replace(&mut self.defined_mode, true);
                         let node = self.parse_expr()?;
-                        self.defined_mode = false;
+                        self.defined_mode = old;
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
-- 
2.43.0


From f25580e7c4b00161b9fd1b30db61d73c9d86e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 10/45] fix: give '<=>' the precedence of the equality
 operators

---
 src/parser/expression.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f4c4070..204c55d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -294,7 +294,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     // 4==4==4 => SyntaxError
     fn parse_arg_eq(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_arg_comp()?;
-        if self.consume_punct_no_term(Punct::Eq)? {
+        if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Eq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::Eq), lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Ne)? {
@@ -334,9 +337,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From e61286ac5ebc9e7df4e63c7c222e699c3fa766e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 11/45] fix: define the variables of an assignment before
 parsing its right hand side

---
 src/parser/expression.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 204c55d..5cddf50 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -151,11 +151,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+        // local variables must be defined before parsing the right hand side.
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
             std::mem::swap(lhs, &mut node);
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -227,8 +228,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
             let lhs = self.check_lhs(lhs)?;
+            let mrhs = self.parse_mul_assign_rhs(None)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -456,8 +457,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 let lhs = self.check_lhs(lhs)?;
+                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -472,16 +473,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -810,8 +811,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     if self.consume_punct_no_term(Punct::Comma)? {
                         self.parse_mul_assign(first_lhs)
                     } else if self.consume_punct_no_term(Punct::Assign)? {
-                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         let lhs = self.check_lhs(first_lhs)?;
+                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         let loc = self.loc();
-- 
2.43.0


From e32bad965e8c35bc05f43726f552e861b97b98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 12/45] fix: stay in 'defined?' after a nested 'defined?'
 without parentheses

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5cddf50..5bd18a1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -214,9 +214,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_arg(&mut self) -> Result<Node, LexerErr> {
         let next = self.peek()?;
         if self.lexer.has_trailing_space(&next) && self.consume_reserved(Reserved::Defined)? {
-            self.defined_mode = true;
+            let old = std::mem::replace(&mut self.defined_mode, true);
             let node = self.parse_arg()?;
-            self.defined_mode = false;
+            self.defined_mode = old;
             return Ok(Node::new_defined(node));
         }
         self.parse_arg_assign()
-- 
2.43.0


From 3ebc6c906c44a93b769a964fa7ef3e536ae01ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 13/45] fix: do not look up outer local variables from the body
 of a method or a class

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2f349b1..62fd63e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -216,7 +216,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match c.kind {
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                ScopeKind::Eval => break,
+                // outer local variables are not visible from the body of method and class.
+                ScopeKind::Method | ScopeKind::Class => return None,
             }
         }
         if let Some(a) = &self.extern_context {
-- 
2.43.0


From 928cf7937993378fc177cebe70efad8bc4d2ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 14/45] fix: do not panic when the position of an invalid token
 is requested

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 62fd63e..139ccb7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -278,7 +278,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(LexerErr(_, loc)) => loc,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
-- 
2.43.0


From afac3ee45c90d1ae8dad138c108452502d4e5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 15/45] fix: take 'do' after the iterator of 'for' as the
 beginning of the loop body

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..597c798 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From 1f34eb14b4acabd7ea56b82ae02da8304905d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 16/45] fix: require the closing parenthesis of the variables
 of 'for'

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 597c798..c279ec6 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -92,6 +92,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
             if !self.consume_punct(Punct::Comma)? {
+                if let Some(term) = terminator {
+                    self.expect_punct(term)?;
+                }
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From fbaff6ca289e4b2c3735eec0245d5334267b7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 17/45] fix: report a malformed '\u{' escape instead of looping
 forever

---
 src/parser/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0913c67..2bfbfd4 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -919,6 +919,9 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                return Err(self.error_unexpected(self.pos));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 6537bdea55a2f59cc954b8ae3b2f14d5dc8624db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 18/45] fix: keep the value of big octal and binary literals

---
 src/parser/lexer.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 2bfbfd4..b67a396 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -719,44 +719,46 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='7') | Some('_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        self.new_radix_numlit(start_pos, 8)
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='1') | Some('_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        self.new_radix_numlit(start_pos, 2)
+    }
+
+    /// Make a token from the digits between `start_pos` and the current position.
+    fn new_radix_numlit(&self, start_pos: usize, radix: u32) -> Result<Token, LexerErr> {
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From d365e49567ba38ac88aa0033b4a89066aaa0b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 19/45] fix: read a number with a leading zero as an octal
 number

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b67a396..5063f8f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -631,6 +631,8 @@ impl<'a> Lexer<'a> {
                 return self.read_octal_number();
             } else if self.consume('b') {
                 return self.read_bin_number();
+            } else if self.consume('_') || self.peek_digit() {
+                return self.read_octal_number();
             }
         };
         let mut s = ch.to_string();
-- 
2.43.0


From 5083e13370c9c6dbd988d2ee4594de255e0e46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 20/45] fix: do not overflow on a too big number of a special
 variable

---
 src/parser/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5063f8f..d080d1d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -414,9 +414,11 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id
+                    .saturating_mul(10)
+                    .saturating_add(ch as u32 - '0' as u32);
             }
-            Ok(self.new_special_var(id as u32 + 100))
+            Ok(self.new_special_var(id.saturating_add(100)))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From b013e0ae27b9959cb57164a201c10897d3c7fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 21/45] fix: read '\2'..'\9' in a regular expression as back
 references

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d080d1d..c502086 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1034,7 +1034,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if '1' <= ch && ch <= '9' && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From 7ce43b323140d92d21f7ae3ba3fb0f5816a9348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 22/45] fix: read an octal escape over 0x7f as a byte

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index c502086..73bcde5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1141,6 +1141,10 @@ impl<'a> Lexer<'a> {
             }
             c if ('0'..='7').contains(&c) => {
                 if let Some(num) = self.consume_tri_octal(c) {
+                    if num > 0x7f {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
                     num as char
                 } else {
                     c
-- 
2.43.0


From 21fddee6c8467c29eca56f77ae474b57e308cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 23/45] fix: do not apply suppress flags to statements nested
 in the construct

---
 src/parser.rs            | 15 +++++++++++++++
 src/parser/expression.rs |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 139ccb7..465269a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,6 +116,21 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.lexer.restore_state(state);
     }
 
+    /// Replace the flags (`suppress_acc_assign`, `suppress_mul_assign`, `suppress_do_block`), and return the old ones.
+    fn replace_suppress_flags(&mut self, flags: (bool, bool, bool)) -> (bool, bool, bool) {
+        let old = (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        );
+        (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        ) = flags;
+        old
+    }
+
     fn scope_mut(&mut self) -> &mut LvarScope {
         self.scope.last_mut().unwrap()
     }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5bd18a1..7ce0664 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -2,6 +2,14 @@ use super::*;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
+        // statements are not affected by the flags of the construct which surrounds them.
+        let old = self.replace_suppress_flags((false, false, false));
+        let res = self.parse_stmts();
+        self.replace_suppress_flags(old);
+        res
+    }
+
+    fn parse_stmts(&mut self) -> Result<Node, LexerErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
         let loc = self.loc();
-- 
2.43.0


From 5bdd2b03bbaa4c09962422eabcda6f92fb9dab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:13 +0000
Subject: [PATCH 24/45] fix: do not take the elements of a list as the right
 hand side of an assignment in it

---
 src/parser.rs            | 15 ++++++++++++---
 src/parser/expression.rs | 28 +++++++++++++++++++++++-----
 src/parser/literals.rs   |  8 ++++++++
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 465269a..7382a17 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -664,7 +664,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
-                        self.parse_arg()?
+                        self.parse_param_default()?
                     };
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -689,10 +689,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_param_default()?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_param_default()?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -747,6 +747,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
+    /// Parse the default value of a parameter.
+    fn parse_param_default(&mut self) -> Result<Node, LexerErr> {
+        // `,` separates the parameters.
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let node = self.parse_arg();
+        self.suppress_mul_assign = old;
+        node
+    }
+
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
         let loc = self.loc();
         let name = self.expect_ident()?;
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7ce0664..d0d1a49 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -187,15 +187,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, LexerErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing arg list.
-        self.suppress_mul_assign = true;
+        // `do` in brackets always belongs to an element.
+        let flags = match term {
+            Some(_) => (false, true, false),
+            None => (self.suppress_acc_assign, true, self.suppress_do_block),
+        };
+        let old = self.replace_suppress_flags(flags);
 
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
+                    self.replace_suppress_flags(old);
                     return Ok(args);
                 }
             };
@@ -212,7 +216,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
+        self.replace_suppress_flags(old);
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -237,7 +241,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         if self.consume_punct_no_term(Punct::Assign)? {
             let lhs = self.check_lhs(lhs)?;
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -873,7 +877,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
                         let old = std::mem::replace(&mut self.defined_mode, true);
+                        let flags = self.replace_suppress_flags((false, false, false));
                         let node = self.parse_expr()?;
+                        self.replace_suppress_flags(flags);
                         self.defined_mode = old;
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
@@ -926,6 +932,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         let punct = punct.into();
+        // `,` separates the arguments. `do` in parentheses always belongs to an argument.
+        let flags = match punct {
+            Some(_) => (false, true, false),
+            None => (self.suppress_acc_assign, true, self.suppress_do_block),
+        };
+        let old = self.replace_suppress_flags(flags);
+        let res = self.parse_args(punct);
+        self.replace_suppress_flags(old);
+        res
+    }
+
+    fn parse_args(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if punct.is_none() && self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 659c226..60ad4ea 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -178,6 +178,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
+        // `,` separates the pairs. `do` in braces always belongs to a key or a value.
+        let old = self.replace_suppress_flags((false, true, false));
+        let res = self.parse_hash_pairs();
+        self.replace_suppress_flags(old);
+        res
+    }
+
+    fn parse_hash_pairs(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From 0415f7de4af773458df173cc23ef2e792341fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:13 +0000
Subject: [PATCH 25/45] fix: accept the name of an outer local variable as a
 keyword of an argument

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d0d1a49..c36f462 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1002,7 +1002,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From 622f13b736671847cb57878e54114f79b20c1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 26/45] fix: take 'do' after the parameters of a lambda literal
 as the beginning of the body

---
 src/parser.rs          | 16 ++++++++++------
 src/parser/literals.rs |  6 +++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7382a17..eae24bd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -664,7 +664,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
-                        self.parse_param_default()?
+                        self.parse_param_default(terminator)?
                     };
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -689,10 +689,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_param_default()?)
+                                Some(self.parse_param_default(terminator)?)
                             }
                         } else {
-                            Some(self.parse_param_default()?)
+                            Some(self.parse_param_default(terminator)?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -748,11 +748,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     /// Parse the default value of a parameter.
-    fn parse_param_default(&mut self) -> Result<Node, LexerErr> {
+    fn parse_param_default(&mut self, terminator: Option<Punct>) -> Result<Node, LexerErr> {
         // `,` separates the parameters.
-        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let flags = match terminator {
+            Some(_) => (false, true, false),
+            None => (self.suppress_acc_assign, true, self.suppress_do_block),
+        };
+        let old = self.replace_suppress_flags(flags);
         let node = self.parse_arg();
-        self.suppress_mul_assign = old;
+        self.replace_suppress_flags(old);
         node
     }
 
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 60ad4ea..a757d04 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -304,7 +304,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct(Punct::LParen)? {
             self.parse_formal_params(Punct::RParen)?
         } else {
-            self.parse_formal_params(None)?
+            // `do` is the beginning of the body.
+            let old = std::mem::replace(&mut self.suppress_do_block, true);
+            let params = self.parse_formal_params(None);
+            self.suppress_do_block = old;
+            params?
         };
         let body = if self.consume_punct(Punct::LBrace)? {
             let body = self.parse_comp_stmt()?;
-- 
2.43.0


From 8c91e4aadf6163176eb01d97849f767c50157b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 27/45] fix: parse the default values of block parameters
 independently of the surrounding construct

---
 src/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eae24bd..72bec61 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -661,11 +661,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
-                    let default = if let Some(Punct::BitOr) = terminator {
-                        self.parse_primary(true)?
-                    } else {
-                        self.parse_param_default(terminator)?
-                    };
+                    let default = self.parse_param_default(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
                         Kind::Required => state = Kind::Optional,
@@ -755,7 +751,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None => (self.suppress_acc_assign, true, self.suppress_do_block),
         };
         let old = self.replace_suppress_flags(flags);
-        let node = self.parse_arg();
+        let node = match terminator {
+            // `|` is the end of the parameters.
+            Some(Punct::BitOr) => self.parse_primary(true),
+            _ => self.parse_arg(),
+        };
         self.replace_suppress_flags(old);
         node
     }
-- 
2.43.0


From 4dd84acdd66e1edb101366b391777ff80169f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 28/45] fix: a required keyword parameter may be followed by
 ';'

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 72bec61..61e9fb0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -677,12 +677,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.new_param(name, loc)?;
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
-                    let next = self.peek_no_term()?.kind;
+                    let next = self.peek_no_term()?;
                     let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                        if next.kind == TokenKind::Punct(Punct::Comma) || next.is_line_term() {
                             None
                         } else if let Some(term) = terminator {
-                            if next == TokenKind::Punct(term) {
+                            if next.kind == TokenKind::Punct(term) {
                                 None
                             } else {
                                 Some(self.parse_param_default(terminator)?)
-- 
2.43.0


From 9bba3f41a88f59d531fdaac2967ddc42a4d4b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 29/45] fix: clause keywords and the end of the input do not
 begin command arguments

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c36f462..742e98c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1172,8 +1172,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Elsif
+                        | Reserved::Else
+                        | Reserved::When
+                        | Reserved::Ensure
+                        | Reserved::In
                         | Reserved::End
                 ),
+                TokenKind::Eof => false,
                 _ => true,
             }
         } else {
-- 
2.43.0


From 3d28056e069cb3eae520c640cdeb26e9097b6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 30/45] fix: register a parameter before the variables of its
 default value

---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 61e9fb0..9ae55ba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -661,6 +661,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
+                    // parameters must be registered before the variables in the default value.
+                    self.new_param(name.clone(), loc)?;
                     let default = self.parse_param_default(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -673,10 +675,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             ))
                         }
                     };
-                    args.push(FormalParam::optional(name.clone(), default, loc));
-                    self.new_param(name, loc)?;
+                    args.push(FormalParam::optional(name, default, loc));
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
+                    // parameters must be registered before the variables in the default value.
+                    let lvar = self.new_param(name.clone(), loc)?;
+                    self.add_kw_param(lvar);
                     let next = self.peek_no_term()?;
                     let default =
                         if next.kind == TokenKind::Punct(Punct::Comma) || next.is_line_term() {
@@ -699,9 +703,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     } else {
                         state = Kind::KeyWord;
                     };
-                    args.push(FormalParam::keyword(name.clone(), default, loc));
-                    let lvar = self.new_param(name, loc)?;
-                    self.add_kw_param(lvar);
+                    args.push(FormalParam::keyword(name, default, loc));
                 } else {
                     // Required param
                     loc = self.prev_loc();
-- 
2.43.0


From b35113a892f57cbc05e1ee921d284e7fef673b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 31/45] fix: reject assignment targets that cannot be assigned

---
 src/parser/expression.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 742e98c..3bffe47 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -513,16 +513,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_unary(&mut self) -> Result<Node, LexerErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
-            Ok(lhs)
+            let lhs = self.parse_unary()?;
+            let lhs = self.parse_accesory_assign(lhs)?;
+            Ok(Node::new_unop(UnOp::BitNot, lhs, loc))
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
-            Ok(lhs)
+            let lhs = self.parse_unary()?;
+            let lhs = self.parse_accesory_assign(lhs)?;
+            Ok(Node::new_unop(UnOp::Not, lhs, loc))
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
-            Ok(lhs)
+            let lhs = self.parse_unary()?;
+            let lhs = self.parse_accesory_assign(lhs)?;
+            Ok(Node::new_unop(UnOp::Pos, lhs, loc))
         } else {
             self.parse_method_call()
         }
@@ -1136,7 +1139,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
         }
-        Ok(lhs)
+        match &lhs.kind {
+            NodeKind::LocalVar(..)
+            | NodeKind::InstanceVar(_)
+            | NodeKind::GlobalVar(_)
+            | NodeKind::SpecialVar(_)
+            | NodeKind::ClassVar(_)
+            | NodeKind::Const { .. }
+            | NodeKind::Index { .. }
+            | NodeKind::DiscardLhs => Ok(lhs),
+            NodeKind::MethodCall { arglist, .. } if *arglist == ArgList::default() => Ok(lhs),
+            _ => Err(error_unexpected(loc, "Illegal assignment target.")),
+        }
     }
 
     fn is_command(&mut self) -> bool {
-- 
2.43.0


From 588cc30399d0aeec1135771ff9379cfd7b8a0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 32/45] fix: restore the position when a token looked at in
 advance is not valid

---
 src/parser/lexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 73bcde5..2156441 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -127,8 +127,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let tok = self.read_token();
         self.restore_state(save);
+        let tok = tok?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -138,14 +139,14 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let tok = loop {
+            let tok = self.read_token();
+            if !matches!(&tok, Ok(tok) if !tok.is_eof() && tok.is_line_term()) {
+                break tok;
             }
-        }
+        };
         self.restore_state(save);
+        let tok = tok?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 93efa4ea242ed9cc78a645cbb161d261baa1e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 33/45] fix: only ASCII digits begin a number, names of
 variables begin with a letter

---
 src/parser/lexer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 2156441..cf1cd1d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -224,7 +224,7 @@ impl<'a> Lexer<'a> {
 
             if ch.is_ascii_alphabetic() || ch == '_' {
                 return self.read_identifier(ch, VarKind::Identifier);
-            } else if ch.is_numeric() {
+            } else if ch.is_ascii_digit() {
                 return self.read_number_literal(ch);
             } else if ch.is_ascii_punctuation() {
                 match ch {
@@ -455,8 +455,7 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
-                        } else {
+                        if !ch.is_ascii_alphabetic() && ch != '_' && ch.is_ascii() {
                             return Err(self.error_unexpected(pos));
                         }
                     }
-- 
2.43.0


From 3560936a639ad7ed29cc4f006d3e806539080109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 34/45] fix: $_ followed by a letter is a global variable name

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cf1cd1d..ec9aeef 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -422,7 +422,7 @@ impl<'a> Lexer<'a> {
             Ok(self.new_special_var(id.saturating_add(100)))
         } else {
             let tok = match self.peek() {
-                Some(ch) if ch.is_ascii_punctuation() => {
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                     let ch = self.get()?;
                     match ch {
                         '&' => self.new_special_var(SPECIAL_LASTMATCH),
-- 
2.43.0


From d29a7042f38e4040e53661cf7fe0fd182df002b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 35/45] fix: i after a number is a suffix only at the end of
 the word

---
 src/parser/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ec9aeef..fcfe150 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -692,7 +692,12 @@ impl<'a> Lexer<'a> {
                 None => return Err(Self::error_parse("Invalid number literal.", self.pos)),
             }
         };
-        if self.consume('i') {
+        // "1if" is not an imaginary number.
+        let is_suffix = match self.peek2() {
+            Some(ch) => !ch.is_ascii_alphanumeric() && ch != '_' && ch.is_ascii(),
+            None => true,
+        };
+        if is_suffix && self.consume('i') {
             Ok(self.new_imaginarylit(number))
         } else {
             match number {
-- 
2.43.0


From 48a104ea49ec399c0583cc25ff19685b31c6f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 36/45] fix: the body of a here document is skipped at every
 newline after its beginning

---
 src/parser/lexer.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index fcfe150..4dde1d5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -850,9 +850,7 @@ impl<'a> Lexer<'a> {
                 },
                 '\n' => {
                     s.push_char('\n');
-                    if self.heredoc_pos > self.pos {
-                        self.pos = self.heredoc_pos;
-                    }
+                    self.skip_heredocument();
                 }
                 c => s.push_char(c),
             }
@@ -900,6 +898,10 @@ impl<'a> Lexer<'a> {
                         s.push(c);
                     }
                 }
+                '\n' => {
+                    s.push('\n');
+                    self.skip_heredocument();
+                }
                 c => s.push(c),
             }
         }
@@ -1056,6 +1058,10 @@ impl<'a> Lexer<'a> {
                     }
                     _ => body.push('#'),
                 },
+                '\n' => {
+                    body.push('\n');
+                    self.skip_heredocument();
+                }
                 c => body.push(c),
             }
         }
@@ -1297,11 +1303,16 @@ impl<'a> Lexer<'a> {
         start..self.pos
     }
 
+    /// Skip the bodies of the here documents which begin after this newline.
+    fn skip_heredocument(&mut self) {
+        if self.heredoc_pos > self.pos {
+            self.pos = self.heredoc_pos;
+        }
+    }
+
     fn consume_newline(&mut self) -> bool {
         if self.consume('\n') {
-            if self.heredoc_pos > self.pos {
-                self.pos = self.heredoc_pos;
-            };
+            self.skip_heredocument();
             true
         } else {
             false
@@ -1313,6 +1324,7 @@ impl<'a> Lexer<'a> {
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
             self.pos += 2;
+            self.skip_heredocument();
             true
         } else {
             false
-- 
2.43.0


From f95e37b49b3539e8cd9fd2dd5f0a9b70b116146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 37/45] fix: a backslash in a percent literal escapes its
 delimiters

---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4dde1d5..7dffcde 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -886,8 +886,8 @@ impl<'a> Lexer<'a> {
                         continue;
                     };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
+                    if !escape_backslash && (c == term || open == Some(c)) {
+                        s.push(c);
                     } else if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
-- 
2.43.0


From a8bc8ceb096cce2d370cdc93aa82ea4c54c416d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 38/45] fix: the delimiters of a string stay in force after an
 interpolation

---
 src/parser/expression.rs |  7 ++++---
 src/parser/lexer.rs      | 16 ++++++++++------
 src/parser/literals.rs   | 37 +++++++++++++++++++++++--------------
 src/token.rs             |  5 +++--
 4 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 3bffe47..4bbdbb2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -763,11 +763,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Ok(Node::new_command(content))
             }
-            TokenKind::OpenString(s, term, level) => {
-                self.parse_interporated_string_literal(s.into(), term, level)
+            TokenKind::OpenString(s, open, term, level) => {
+                self.parse_interporated_string_literal(s.into(), open, term, level)
             }
             TokenKind::OpenCommand(s, term, level) => {
-                let content = self.parse_interporated_string_literal(s.into(), term, level)?;
+                let content =
+                    self.parse_interporated_string_literal(s.into(), None, term, level)?;
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7dffcde..40f1ff9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -415,9 +415,7 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id
-                    .saturating_mul(10)
-                    .saturating_add(ch as u32 - '0' as u32);
+                id = id.saturating_mul(10).saturating_add(ch as u32 - '0' as u32);
             }
             Ok(self.new_special_var(id.saturating_add(100)))
         } else {
@@ -780,7 +778,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_string(s.as_string()?, term, level))
+                Ok(self.new_open_string(s.as_string()?, open, term, level))
             }
             _ => unreachable!(),
         }
@@ -1512,8 +1510,14 @@ impl<'a> Lexer<'a> {
         Annot::new(TokenKind::Punct(punc), self.cur_loc())
     }
 
-    fn new_open_string(&self, s: String, delimiter: Option<char>, level: usize) -> Token {
-        Token::new_open_string(s, delimiter, level, self.cur_loc())
+    fn new_open_string(
+        &self,
+        s: String,
+        open: Option<char>,
+        delimiter: Option<char>,
+        level: usize,
+    ) -> Token {
+        Token::new_open_string(s, open, delimiter, level, self.cur_loc())
     }
 
     fn new_open_reg(&self, s: String) -> Token {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index a757d04..8273b48 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -20,10 +20,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.get()?;
                     s += &next_s;
                 }
-                TokenKind::OpenString(next_s, delimiter, level) => {
+                TokenKind::OpenString(next_s, open, delimiter, level) => {
                     self.get()?;
                     s += next_s.as_str();
-                    return self.parse_interporated_string_literal(s, delimiter, level);
+                    return self.parse_interporated_string_literal(s, open, delimiter, level);
                 }
                 _ => break,
             }
@@ -34,8 +34,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
-        level: usize,
+        mut open: Option<char>,
+        mut delimiter: Option<char>,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
@@ -43,7 +44,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.parse_template(&mut nodes)?;
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -54,8 +55,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(
+                                next_s,
+                                next_open,
+                                next_delimiter,
+                                next_level,
+                            ) => {
                                 let t = self.get()?;
+                                (open, delimiter, level) = (next_open, next_delimiter, next_level);
                                 name += next_s.as_str();
                                 loc = loc.merge(t.loc);
                                 break;
@@ -71,7 +78,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, _, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.into(), loc));
                 }
                 _ => unreachable!("{:?}", tok),
@@ -111,8 +119,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         } else if let TokenKind::StringLit(s) = tok.kind {
             Ok(Node::new_string(s, loc))
-        } else if let TokenKind::OpenString(s, term, level) = tok.kind {
-            let node = self.parse_interporated_string_literal(s.into(), term, level)?;
+        } else if let TokenKind::OpenString(s, open, term, level) = tok.kind {
+            let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
             Ok(node)
         } else {
             unreachable!("parse_percent_notation(): {:?}", tok.kind);
@@ -152,8 +160,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = tok.loc();
         let node = match tok.kind {
             TokenKind::StringLit(s) => Node::new_string(s, loc),
-            TokenKind::OpenString(s, term, level) => {
-                self.parse_interporated_string_literal(s.into(), term, level)?
+            TokenKind::OpenString(s, open, term, level) => {
+                self.parse_interporated_string_literal(s.into(), open, term, level)?
             }
             _ => unreachable!(),
         };
@@ -169,7 +177,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Node::new_command(content)
             }
             TokenKind::OpenCommand(s, term, level) => {
-                let content = self.parse_interporated_string_literal(s.into(), term, level)?;
+                let content =
+                    self.parse_interporated_string_literal(s.into(), None, term, level)?;
                 Node::new_command(content)
             }
             _ => unreachable!(),
@@ -233,8 +242,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let token = self.get()?;
         let symbol_loc = self.prev_loc();
         let id = match token.kind {
-            TokenKind::OpenString(s, term, level) => {
-                let node = self.parse_interporated_string_literal(s.into(), term, level)?;
+            TokenKind::OpenString(s, open, term, level) => {
+                let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
                 let method = "to_sym".to_string();
                 let loc = symbol_loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
diff --git a/src/token.rs b/src/token.rs
index afa69c4..b366fda 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -58,7 +58,7 @@ pub(crate) enum TokenKind {
     CommandLit(String),
     Reserved(Reserved),
     Punct(Punct),
-    OpenString(String, Option<char>, usize), // (content, delimiter, paren_level)
+    OpenString(String, Option<char>, Option<char>, usize), // (content, opening, delimiter, paren_level)
     OpenRegex(String),
     OpenCommand(String, Option<char>, usize),
     PercentNotation(char, String),
@@ -249,11 +249,12 @@ impl Token {
 
     pub(crate) fn new_open_string(
         s: impl Into<String>,
+        open: Option<char>,
         delimiter: Option<char>,
         level: usize,
         loc: Loc,
     ) -> Self {
-        Annot::new(TokenKind::OpenString(s.into(), delimiter, level), loc)
+        Annot::new(TokenKind::OpenString(s.into(), open, delimiter, level), loc)
     }
 
     pub(crate) fn new_open_command(
-- 
2.43.0


From 205f4a362b12ad09dd57cedabe7eb642a3b734ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 39/45] fix: a stray ] in a regular expression does not begin a
 character class

---
 src/parser/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 40f1ff9..7ec1cd6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1005,7 +1005,10 @@ impl<'a> Lexer<'a> {
                     body.push('[');
                 }
                 ']' => {
-                    char_class -= 1;
+                    // ']' out of a character class is an ordinary character.
+                    if char_class > 0 {
+                        char_class -= 1;
+                    }
                     body.push(']');
                 }
                 '\\' => {
-- 
2.43.0


From 8bcefd3c0068e9807acc8ce1a5375810707318bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 40/45] fix: names of variables in symbols may begin with a
 non-ASCII letter

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7ec1cd6..be1adba 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -594,7 +594,7 @@ impl<'a> Lexer<'a> {
                 self.consume('@');
                 self.consume('@');
                 let ch = self.get()?;
-                if !ch.is_ascii_alphabetic() && ch != '_' {
+                if !ch.is_ascii_alphabetic() && ch != '_' && ch.is_ascii() {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-- 
2.43.0


From 174ac9374c36220a79d0cc0bdc30e4b95dddbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 41/45] fix: the = of an operator is not a part of the symbol
 before it

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index be1adba..2e1f0b9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -570,7 +570,9 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like
+                            && ch == '='
+                            && !matches!(self.peek2(), Some('>' | '=' | '~'))) =>
                 {
                     self.get().unwrap();
                 }
-- 
2.43.0


From d9ee5ab7de4ea09b9386129438129e671ebe932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 42/45] fix: **= is an assignment operator

---
 src/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 2e1f0b9..755707e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -264,7 +264,11 @@ impl<'a> Lexer<'a> {
                         if self.consume('=') {
                             return Ok(self.new_punct(Punct::AssignOp(BinOp::Mul)));
                         } else if self.consume('*') {
-                            return Ok(self.new_punct(Punct::DMul));
+                            if self.consume('=') {
+                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Exp)));
+                            } else {
+                                return Ok(self.new_punct(Punct::DMul));
+                            }
                         } else {
                             return Ok(self.new_punct(Punct::Mul));
                         }
-- 
2.43.0


From a07c32b36329972a589ea39dbd302ffca22cf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 43/45] fix: the location of a method name or a symbol ends
 with its last character

---
 src/parser/lexer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 755707e..ae8061f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -585,10 +585,7 @@ impl<'a> Lexer<'a> {
         } else {
             return Err(self.error_unexpected(self.token_start_pos));
         };
-        Ok((
-            self.current_slice().to_string(),
-            Loc(self.token_start_pos, self.pos),
-        ))
+        Ok((self.current_slice().to_string(), self.cur_loc()))
     }
 
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
@@ -604,10 +601,7 @@ impl<'a> Lexer<'a> {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-                Ok(Some((
-                    self.current_slice().to_string(),
-                    Loc(self.token_start_pos, self.pos),
-                )))
+                Ok(Some((self.current_slice().to_string(), self.cur_loc())))
             }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
-- 
2.43.0


From 677d1dead514331338b864b33b72176da8c24e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:23 +0000
Subject: [PATCH 44/45] fix: errors at the end of the text are UnexpectedEOF

---
 src/parser.rs            |  9 +++++++++
 src/parser/expression.rs |  9 +++------
 src/parser/lexer.rs      | 22 +++++-----------------
 src/parser/literals.rs   |  3 +--
 4 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9ae55ba..aacebef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -299,6 +299,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// The error for the next token, which is not an expected one.
+    fn error_next(&mut self, msg: &str) -> LexerErr {
+        match self.peek_no_term() {
+            Ok(tok) if tok.is_eof() => error_eof(tok.loc()),
+            Ok(tok) => error_unexpected(tok.loc(), msg),
+            Err(err) => err,
+        }
+    }
+
     fn prev_loc(&self) -> Loc {
         self.prev_loc
     }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 4bbdbb2..62c498c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -155,8 +155,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
-            let loc = self.loc();
-            return Err(error_unexpected(loc, "Expected '='."));
+            return Err(self.error_next("Expected '='."));
         }
 
         // local variables must be defined before parsing the right hand side.
@@ -257,8 +256,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
             if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
-                return Err(error_unexpected(loc, "Expect ':'."));
+                return Err(self.error_next("Expect ':'."));
             };
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
@@ -831,8 +829,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
-                        let loc = self.loc();
-                        return Err(error_unexpected(loc, "Expected '=' or ','."));
+                        return Err(self.error_next("Expected '=' or ','."));
                     }
                 }
                 _ => {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ae8061f..6c3d448 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -709,8 +709,7 @@ impl<'a> Lexer<'a> {
     /// Read hexadecimal number.
     fn read_hex_number(&mut self) -> Result<Token, LexerErr> {
         let start_pos = self.pos;
-        self.expect_hex()
-            .map_err(|_| Self::error_parse("Numeric literal without digits.", self.pos))?;
+        self.expect_hex()?;
 
         while self.consume_hex().is_some() || self.consume('_') {}
 
@@ -913,10 +912,7 @@ impl<'a> Lexer<'a> {
         let mut u = 0;
         if strict {
             for _ in 0..4 {
-                u = 16 * u
-                    + self.expect_hex().map_err(|_| {
-                        Self::error_parse("Invalid Unicode escape sequence.", self.pos)
-                    })?;
+                u = 16 * u + self.expect_hex()?;
             }
         } else {
             let mut i = 0;
@@ -1203,10 +1199,7 @@ impl<'a> Lexer<'a> {
             ParseMode::Command => '`',
         };
         if !no_term && !self.consume(term_ch) {
-            return Err(Self::error_parse(
-                "Unterminated here document identifier.",
-                self.pos,
-            ));
+            return Err(self.error_unexpected(self.pos));
         }
         let save = self.save_state();
         self.goto_eol();
@@ -1231,13 +1224,8 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                // the delimiter is not found anywhere before EOF.
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8273b48..c030fcb 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -346,8 +346,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
             if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
+                return Err(self.error_next("Expect '}'"));
             }
         } else {
             let tok = self.get()?;
-- 
2.43.0


From f9fb6f6e0a846bae63079833a359f16d3eb44562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 45/45] fix: a method name that ends with the text at '[' is an
 unexpected end

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6c3d448..19f94a3 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -563,7 +563,7 @@ impl<'a> Lexer<'a> {
                     if self.consume(']') {
                         self.consume('=');
                     } else {
-                        return Err(self.error_unexpected(self.token_start_pos));
+                        return Err(self.error_unexpected(self.pos));
                     }
                 }
                 _ => return Err(self.error_unexpected(self.token_start_pos)),
-- 
2.43.0

