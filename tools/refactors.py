"""Edits of /repo that keep the behaviour: the checks have to stay quiet on them (tools/refactor.py makes the diffs)."""
E, D, F, L, P = ('src/parser/%s.rs' % x for x in ('expression', 'define', 'flow_control', 'literals', 'p'))
P = 'src/parser.rs'
REF = {}


def R(name, *edits):
    REF[name] = edits


def after_fn(old):
    return old


R('while-header-helper', (F, '''        let old_suppress_do_flag = self.suppress_do_block;
        self.suppress_do_block = true;
        let loc = self.prev_loc();

        self.loop_stack.push(LoopKind::While);
        let cond = self.parse_expr()?;
        self.suppress_do_block = old_suppress_do_flag;
        self.parse_do()?;
''', '''        let loc = self.prev_loc();

        self.loop_stack.push(LoopKind::While);
        let cond = self.parse_loop_header()?;
        self.parse_do()?;
'''), (F, '''        let old_suppress_do_flag = self.suppress_do_block;
        self.suppress_do_block = true;
        let iter = self.parse_expr()?;
        self.suppress_do_block = old_suppress_do_flag;
        self.parse_do()?;
''', '''        let iter = self.parse_loop_header()?;
        self.parse_do()?;
'''), (F, '''    pub(super) fn parse_for(''', '''    /// Parse an expression in which `do` is not the beginning of a block.
    fn parse_loop_header(&mut self) -> Result<Node, LexerErr> {
        let old = std::mem::replace(&mut self.suppress_do_block, true);
        let node = self.parse_expr()?;
        self.suppress_do_block = old;
        Ok(node)
    }

    pub(super) fn parse_for('''))

R('else-helper', (F, '''        let else_ = if self.consume_reserved(Reserved::Elsif)? {
            self.parse_if_then()?
        } else if self.consume_reserved(Reserved::Else)? {
            self.parse_comp_stmt()?
        } else {
            Node::new_comp_stmt(vec![], self.loc())
        };
        Ok(Node::new_if''', '''        let else_ = if self.consume_reserved(Reserved::Elsif)? {
            self.parse_if_then()?
        } else {
            self.parse_else_clause()?
        };
        Ok(Node::new_if'''), (F, '''        let else_ = if self.consume_reserved(Reserved::Else)? {
            self.parse_comp_stmt()?
        } else {
            Node::new_comp_stmt(vec![], self.loc())
        };
        self.expect_reserved(Reserved::End)?;
        Ok(Node::new_if(cond, else_, then_, loc))
    }
''', '''        let else_ = self.parse_else_clause()?;
        self.expect_reserved(Reserved::End)?;
        Ok(Node::new_if(cond, else_, then_, loc))
    }

    fn parse_else_clause(&mut self) -> Result<Node, LexerErr> {
        if !self.consume_reserved(Reserved::Else)? {
            let loc = self.loc();
            return Ok(Node::new_comp_stmt(vec![], loc));
        }
        self.parse_comp_stmt()
    }
'''), (F, '''        let else_ = if self.consume_reserved(Reserved::Else)? {
            self.parse_comp_stmt()?
        } else {
            Node::new_comp_stmt(vec![], self.loc())
        };
        self.expect_reserved(Reserved::End)?;
        self.suppress''', '''        let else_ = self.parse_else_clause()?;
        self.expect_reserved(Reserved::End)?;
        self.suppress'''))

R('stmts-while', (E, '''        loop {
            if self.peek()?.check_stmt_end() {
                let node = Node::new_comp_stmt(nodes, loc);
                return Ok(node);
            }

            let node = self.parse_stmt()?;
            nodes.push(node);
            if !self.consume_term()? {
                break;
            }
        }
        let node = Node::new_comp_stmt(nodes, loc);
        Ok(node)
''', '''        while !self.peek()?.check_stmt_end() {
            nodes.push(self.parse_stmt()?);
            if !self.consume_term()? {
                break;
            }
        }
        Ok(Node::new_comp_stmt(nodes, loc))
'''))

R('comp-kind', (E, '''        loop {
            if self.consume_punct_no_term(Punct::Ge)? {
                let rhs = self.parse_arg_bitor()?;
                lhs = Node::new_binop(BinOp::Cmp(CmpKind::Ge), lhs, rhs);
            } else if self.consume_punct_no_term(Punct::Gt)? {
                let rhs = self.parse_arg_bitor()?;
                lhs = Node::new_binop(BinOp::Cmp(CmpKind::Gt), lhs, rhs);
            } else if self.consume_punct_no_term(Punct::Le)? {
                let rhs = self.parse_arg_bitor()?;
                lhs = Node::new_binop(BinOp::Cmp(CmpKind::Le), lhs, rhs);
            } else if self.consume_punct_no_term(Punct::Lt)? {
                let rhs = self.parse_arg_bitor()?;
                lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
            } else {
                break;
            }
        }
        Ok(lhs)
    }
''', '''        while let Some(kind) = self.consume_cmp_kind()? {
            let rhs = self.parse_arg_bitor()?;
            lhs = Node::new_binop(BinOp::Cmp(kind), lhs, rhs);
        }
        Ok(lhs)
    }

    fn consume_cmp_kind(&mut self) -> Result<Option<CmpKind>, LexerErr> {
        let kind = match self.peek_no_term()?.kind {
            TokenKind::Punct(Punct::Lt) => CmpKind::Lt,
            TokenKind::Punct(Punct::Le) => CmpKind::Le,
            TokenKind::Punct(Punct::Gt) => CmpKind::Gt,
            TokenKind::Punct(Punct::Ge) => CmpKind::Ge,
            _ => return Ok(None),
        };
        self.get()?;
        Ok(Some(kind))
    }
'''))

R('eq-op', (E, '''        if self.consume_punct_no_term(Punct::Cmp)? {
            let rhs = self.parse_arg_comp()?;
            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
        } else if self.consume_punct_no_term(Punct::Eq)? {
            let rhs = self.parse_arg_comp()?;
            Ok(Node::new_binop(BinOp::Cmp(CmpKind::Eq), lhs, rhs))
        } else if self.consume_punct_no_term(Punct::Ne)? {
            let rhs = self.parse_arg_comp()?;
            Ok(Node::new_binop(BinOp::Cmp(CmpKind::Ne), lhs, rhs))
        } else if self.consume_punct_no_term(Punct::TEq)? {
            let rhs = self.parse_arg_comp()?;
            Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))
        } else if self.consume_punct_no_term(Punct::Match)? {
            let rhs = self.parse_arg_comp()?;
            Ok(Node::new_binop(BinOp::Match, lhs, rhs))
        } else if''', '''        let op = if self.consume_punct_no_term(Punct::Match)? {
            Some(BinOp::Match)
        } else if self.consume_punct_no_term(Punct::TEq)? {
            Some(BinOp::Cmp(CmpKind::TEq))
        } else if self.consume_punct_no_term(Punct::Eq)? {
            Some(BinOp::Cmp(CmpKind::Eq))
        } else if self.consume_punct_no_term(Punct::Ne)? {
            Some(BinOp::Cmp(CmpKind::Ne))
        } else if self.consume_punct_no_term(Punct::Cmp)? {
            Some(BinOp::Compare)
        } else {
            None
        };
        if let Some(op) = op {
            let rhs = self.parse_arg_comp()?;
            return Ok(Node::new_binop(op, lhs, rhs));
        }
        if'''))

R('class-body-helper', (D, '''        self.consume_term()?;

        self.scope.push(LvarScope::new_class(None));
        self.loop_stack.push(LoopKind::Top);
        let body = self.parse_begin()?;
        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;

        Ok(Node::new_class_decl(''', '''        self.consume_term()?;
        let (body, lvar) = self.parse_class_body()?;

        Ok(Node::new_class_decl('''), (D, '''        self.consume_term()?;

        self.scope.push(LvarScope::new_class(None));
        self.loop_stack.push(LoopKind::Top);
        let body = self.parse_begin()?;
        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;

        Ok(Node::new_singleton_class_decl(singleton, body, lvar, loc))
    }
''', '''        self.consume_term()?;
        let (body, lvar) = self.parse_class_body()?;

        Ok(Node::new_singleton_class_decl(singleton, body, lvar, loc))
    }

    fn parse_class_body(&mut self) -> Result<(Node, LvarCollector), LexerErr> {
        self.loop_stack.push(LoopKind::Top);
        self.scope.push(LvarScope::new_class(None));
        let body = self.parse_begin()?;
        let scope = self.scope.pop().unwrap();
        self.loop_stack.pop().unwrap();
        Ok((body, scope.lvar))
    }
'''))

R('def-name-helper', (D, '''        let def_loc = self.prev_loc();
        let tok = self.get()?;
        let loc = tok.loc;
        let (singleton, name) = match tok.kind {''', '''        let def_loc = self.prev_loc();
        let (singleton, name) = self.parse_def_name()?;

        self.scope.push(LvarScope::new_method());
        self.loop_stack.push(LoopKind::Top);
        let args = self.parse_def_params()?;
        let body = self.parse_begin()?;
        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;

        Ok(if let Some(singleton) = singleton {
            Node::new_singleton_method_decl(singleton, name, args, body, lvar, def_loc)
        } else {
            Node::new_method_decl(name, args, body, lvar, def_loc)
        })
    }

    fn parse_def_name(&mut self) -> Result<(Option<Node>, String), LexerErr> {
        let tok = self.get()?;
        let loc = tok.loc;
        let res = match tok.kind {'''), (D, '''            _ => return Err(error_unexpected(loc, "Invalid method name.")),
        };

        self.scope.push(LvarScope::new_method());
        self.loop_stack.push(LoopKind::Top);
        let args = self.parse_def_params()?;
        let body = self.parse_begin()?;
        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;

        let decl = match singleton {
            Some(singleton) => {
                Node::new_singleton_method_decl(singleton, name, args, body, lvar, def_loc)
            }
            None => Node::new_method_decl(name, args, body, lvar, def_loc),
        };
        Ok(decl)
    }''', '''            _ => return Err(error_unexpected(loc, "Invalid method name.")),
        };
        Ok(res)
    }'''))

R('formal-comma', (P, '''            match terminator {
                Some(_) => {
                    if !self.consume_punct(Punct::Comma)? {
                        break;
                    }
                }
                None => {
                    if !self.consume_punct_no_term(Punct::Comma)? {
                        break;
                    }
                }
            }
''', '''            let comma = if terminator.is_some() {
                self.consume_punct(Punct::Comma)?
            } else {
                self.consume_punct_no_term(Punct::Comma)?
            };
            if !comma {
                break;
            }
'''))

R('formal-keyword-helper', (P, '''                    let next = self.peek_no_term()?;
                    let default =
                        if next.kind == TokenKind::Punct(Punct::Comma) || next.is_line_term() {
                            None
                        } else if let Some(term) = terminator {
                            if next.kind == TokenKind::Punct(term) {
                                None
                            } else {
                                Some(self.parse_param_default(terminator)?)
                            }
                        } else {
                            Some(self.parse_param_default(terminator)?)
                        };
''', '''                    let default = self.parse_keyword_default(terminator)?;
'''), (P, '''    /// Parse the default value of a parameter.
''', '''    fn parse_keyword_default(
        &mut self,
        terminator: Option<Punct>,
    ) -> Result<Option<Node>, LexerErr> {
        let next = self.peek_no_term()?;
        let is_end = match terminator {
            Some(term) => next.kind == TokenKind::Punct(term),
            None => false,
        };
        if is_end || next.is_line_term() || next.kind == TokenKind::Punct(Punct::Comma) {
            return Ok(None);
        }
        let node = self.parse_param_default(terminator)?;
        Ok(Some(node))
    }

    /// Parse the default value of a parameter.
'''))

R('args-hash-helper', (E, '''                    let value = self.parse_arg()?;
                    let mut kvp = vec![(node, value)];
                    if self.consume_punct(Punct::Comma)? {
                        loop {
                            // Support trailing comma
                            if let Some(punct) = punct {
                                if let TokenKind::Punct(p) = self.peek()?.kind {
                                    if punct == p {
                                        break;
                                    }
                                }
                            };
                            let key = self.parse_arg()?;
                            self.expect_punct(Punct::FatArrow)?;
                            let value = self.parse_arg()?;
                            kvp.push((key, value));
                            if !self.consume_punct(Punct::Comma)? {
                                break;
                            }
                        }
                    }
''', '''                    let kvp = self.parse_hash_args(node, punct)?;
'''), (E, '''    pub(super) fn parse_begin(''', '''    fn parse_hash_args(
        &mut self,
        key: Node,
        punct: Option<Punct>,
    ) -> Result<Vec<(Node, Node)>, LexerErr> {
        let value = self.parse_arg()?;
        let mut kvp = vec![(key, value)];
        while self.consume_punct(Punct::Comma)? {
            // Support trailing comma
            if let Some(punct) = punct {
                if self.peek()?.kind == TokenKind::Punct(punct) {
                    break;
                }
            };
            let key = self.parse_arg()?;
            self.expect_punct(Punct::FatArrow)?;
            let value = self.parse_arg()?;
            kvp.push((key, value));
        }
        Ok(kvp)
    }

    pub(super) fn parse_begin('''))

R('rescue-helper', (E, '''        loop {
            if !self.consume_reserved(Reserved::Rescue)? {
                break;
            };
            let mut assign = None;
            let mut exception = vec![];
            if !self.consume_term()? {
                if !self.peek_punct_no_term(Punct::FatArrow) {
                    exception = self.parse_mul_assign_rhs(None)?;
                };
                if self.consume_punct_no_term(Punct::FatArrow)? {
                    let lhs = self.parse_arg()?;
                    assign = Some(self.check_lhs(lhs)?);
                }
                self.parse_then()?;
            };
            let rescue_body = self.parse_comp_stmt()?;
            rescue.push(RescueEntry::new(exception, assign, rescue_body));
        }
        let else_ = if self.consume_reserved(Reserved::Else)? {
            Some(self.parse_comp_stmt()?)
        } else {
            None
        };
        let ensure = if self.consume_reserved(Reserved::Ensure)? {
            Some(self.parse_comp_stmt()?)
        } else {
            None
        };
        self.expect_reserved(Reserved::End)?;
        Ok(Node::new_begin(body, rescue, else_, ensure))
    }
''', '''        while self.consume_reserved(Reserved::Rescue)? {
            let entry = self.parse_rescue_clause()?;
            rescue.push(entry);
        }
        let else_ = self.parse_optional_clause(Reserved::Else)?;
        let ensure = self.parse_optional_clause(Reserved::Ensure)?;
        self.expect_reserved(Reserved::End)?;
        Ok(Node::new_begin(body, rescue, else_, ensure))
    }

    fn parse_rescue_clause(&mut self) -> Result<RescueEntry, LexerErr> {
        if self.consume_term()? {
            let body = self.parse_comp_stmt()?;
            return Ok(RescueEntry::new(vec![], None, body));
        }
        let exception = if self.peek_punct_no_term(Punct::FatArrow) {
            vec![]
        } else {
            self.parse_mul_assign_rhs(None)?
        };
        let assign = if self.consume_punct_no_term(Punct::FatArrow)? {
            let lhs = self.parse_arg()?;
            Some(self.check_lhs(lhs)?)
        } else {
            None
        };
        self.parse_then()?;
        let body = self.parse_comp_stmt()?;
        Ok(RescueEntry::new(exception, assign, body))
    }

    fn parse_optional_clause(&mut self, keyword: Reserved) -> Result<Option<Node>, LexerErr> {
        match self.consume_reserved(keyword)? {
            true => Ok(Some(self.parse_comp_stmt()?)),
            false => Ok(None),
        }
    }
'''))

R('case-branch-helper', (F, '''            let arg = self.parse_mul_assign_rhs(None)?;
            self.parse_then()?;
            let body = self.parse_comp_stmt()?;
            when_.push(CaseBranch::new(arg, body));
        }
''', '''            when_.push(self.parse_when()?);
        }
'''), (F, '''    pub(super) fn parse_return(''', '''    fn parse_when(&mut self) -> Result<CaseBranch, LexerErr> {
        let arg = self.parse_mul_assign_rhs(None)?;
        self.parse_then()?;
        let body = self.parse_comp_stmt()?;
        Ok(CaseBranch::new(arg, body))
    }

    pub(super) fn parse_return('''), (F, '''        let cond = if self.peek()?.kind != TokenKind::Reserved(Reserved::When) {
            Some(self.parse_expr()?)
        } else {
            None
        };
''', '''        let cond = match self.peek()?.kind {
            TokenKind::Reserved(Reserved::When) => None,
            _ => Some(self.parse_expr()?),
        };
'''))

R('jump-value', (F, '''        if self.consume_punct_no_term(Punct::Comma)? {
            let mut vec = vec![val, self.parse_arg()?];
            while self.consume_punct_no_term(Punct::Comma)? {
                vec.push(self.parse_arg()?);
            }
            let val = Node::new_array(vec, ret_loc);
            Ok((val, loc))
        } else {
            Ok((val, loc))
        }
''', '''        if !self.consume_punct_no_term(Punct::Comma)? {
            return Ok((val, loc));
        }
        let mut vec = vec![val];
        loop {
            let elem = self.parse_arg()?;
            vec.push(elem);
            if !self.consume_punct_no_term(Punct::Comma)? {
                break;
            }
        }
        Ok((Node::new_array(vec, ret_loc), loc))
'''), (F, '''        let tok = self.peek_no_term()?;
        // TODO: This is not correct.
        if tok.is_term()
            || tok.kind == TokenKind::Reserved(Reserved::Unless)
            || tok.kind == TokenKind::Reserved(Reserved::If)
            || tok.check_stmt_end()
        {
            let val''', '''        let tok = self.peek_no_term()?;
        // TODO: This is not correct.
        let no_value = match tok.kind {
            TokenKind::Reserved(Reserved::If | Reserved::Unless) => true,
            _ => tok.is_term() || tok.check_stmt_end(),
        };
        if no_value {
            let val'''))

R('identifier-helper', (E, '''                if let Some(outer) = self.is_local_var(&name) {
                    Ok(Node::new_lvar(name, outer, loc))
                } else {
                    // FUNCTION or COMMAND or LHS for assignment
                    let node = Node::new_identifier(name.to_string(), loc);
                    if let Ok(tok) = self.peek_no_term() {
                        match tok.kind {
                            // Multiple assignment
                            TokenKind::Punct(Punct::Comma) => return Ok(node),
                            // Method call with block and no args
                            TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
                                return self.parse_function_args(node)
                            }
                            _ => {}
                        }
                    };

                    if !suppress_unparen_call && self.is_command() {
                        Ok(self.parse_command(name, loc)?)
                    } else {
                        Ok(node)
                    }
                }
''', '''                match self.is_local_var(&name) {
                    Some(outer) => Ok(Node::new_lvar(name, outer, loc)),
                    None => self.parse_name(name, loc, suppress_unparen_call),
                }
'''), (E, '''    fn parse_arglist_block(
''', '''    /// FUNCTION or COMMAND or LHS for assignment
    fn parse_name(
        &mut self,
        name: String,
        loc: Loc,
        suppress_unparen_call: bool,
    ) -> Result<Node, LexerErr> {
        let node = Node::new_identifier(name.to_string(), loc);
        if let Ok(tok) = self.peek_no_term() {
            match tok.kind {
                // Multiple assignment
                TokenKind::Punct(Punct::Comma) => return Ok(node),
                // Method call with block and no args
                TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
                    return self.parse_function_args(node)
                }
                _ => {}
            }
        };
        if suppress_unparen_call || !self.is_command() {
            return Ok(node);
        }
        self.parse_command(name, loc)
    }

    fn parse_arglist_block(
'''))

R('negative-literal-helper', (E, '''                Punct::Minus => match self.peek_no_term()?.kind {
                    TokenKind::IntegerLit(num) => {
                        self.get()?;
                        match num.checked_neg() {
                            Some(i) => Ok(Node::new_integer(i, loc)),
                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
                        }
                    }
                    TokenKind::BignumLit(num) => {
                        self.get()?;
                        Ok(Node::new_bignum(-num, loc))
                    }
                    TokenKind::FloatLit(num) => {
                        self.get()?;
                        Ok(Node::new_float(-num, loc))
                    }
                    _ => {
                        // operand of '-' is not a numeric literal. (e.g. "!-a", "2 ** -x")
                        let operand = self.parse_unary()?;
                        let loc = loc.merge(operand.loc());
                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
                    }
                },
''', '''                Punct::Minus => self.parse_minus(loc),
'''), (E, '''    fn parse_arglist_block(
''', '''    fn parse_minus(&mut self, loc: Loc) -> Result<Node, LexerErr> {
        let node = match self.peek_no_term()?.kind {
            TokenKind::IntegerLit(num) => match num.checked_neg() {
                Some(i) => Node::new_integer(i, loc),
                None => Node::new_bignum(-BigInt::from(num), loc),
            },
            TokenKind::BignumLit(num) => Node::new_bignum(-num, loc),
            TokenKind::FloatLit(num) => Node::new_float(-num, loc),
            _ => {
                // operand of '-' is not a numeric literal. (e.g. "!-a", "2 ** -x")
                let operand = self.parse_unary()?;
                let loc = loc.merge(operand.loc());
                return Ok(Node::new_unop(UnOp::Neg, operand, loc));
            }
        };
        self.get()?;
        Ok(node)
    }

    fn parse_arglist_block(
'''))

R('template-match', (L, '''        if self.consume_punct(Punct::LBrace)? {
            nodes.push(self.parse_comp_stmt()?);
            if !self.consume_punct(Punct::RBrace)? {
                return Err(self.error_next("Expect '}'"));
            }
        } else {
            let tok = self.get()?;
''', '''        if self.consume_punct(Punct::LBrace)? {
            let node = self.parse_comp_stmt()?;
            if self.consume_punct(Punct::RBrace)? {
                nodes.push(node);
                return Ok(());
            }
            return Err(self.error_next("Expect '}'"));
        } else {
            let tok = self.get()?;
'''))

R('hash-key-helper', (L, '''            let ident_loc = self.loc();
            let mut symbol_flag = false;
            let key = match self.peek()?.can_be_symbol() {
                Some(id) => {
                    let save = self.save_state();
                    self.get().unwrap();
                    if self.consume_punct(Punct::Colon)? {
                        symbol_flag = true;
                        Node::new_symbol(id.to_owned(), ident_loc)
                    } else {
                        self.restore_state(save);
                        self.parse_arg()?
                    }
                }
                None => self.parse_arg()?,
            };
            if !symbol_flag {
                self.expect_punct(Punct::FatArrow)?
            };
            let value''', '''            let key = match self.parse_symbol_key()? {
                Some(key) => key,
                None => {
                    let key = self.parse_arg()?;
                    self.expect_punct(Punct::FatArrow)?;
                    key
                }
            };
            let value'''), (L, '''    pub(super) fn parse_symbol(''', '''    /// Parse `id:` of a pair. If the key is not a symbol of this form, nothing is consumed.
    fn parse_symbol_key(&mut self) -> Result<Option<Node>, LexerErr> {
        let loc = self.loc();
        if let Some(id) = self.peek()?.can_be_symbol() {
            let save = self.save_state();
            self.get().unwrap();
            if self.consume_punct(Punct::Colon)? {
                return Ok(Some(Node::new_symbol(id.to_owned(), loc)));
            }
            self.restore_state(save);
        }
        Ok(None)
    }

    pub(super) fn parse_symbol('''))

R('lambda-body-helper', (L, '''        let body = if self.consume_punct(Punct::LBrace)? {
            let body = self.parse_comp_stmt()?;
            self.expect_punct(Punct::RBrace)?;
            body
        } else if self.consume_reserved(Reserved::Do)? {
            let body = self.parse_comp_stmt()?;
            self.expect_reserved(Reserved::End)?;
            body
        } else {
            let loc = self.loc();
            let tok = self.get()?;
            return Err(error_unexpected(
                loc,
                format!("Expected 'do' or '{{'. Actual:{:?}", tok.kind),
            ));
        };
        self.loop_stack''', '''        let body = self.parse_lambda_body()?;
        self.loop_stack'''), (L, '''    /// Parse template (#{..}''', '''    fn parse_lambda_body(&mut self) -> Result<Node, LexerErr> {
        if self.consume_punct(Punct::LBrace)? {
            let body = self.parse_comp_stmt()?;
            self.expect_punct(Punct::RBrace)?;
            return Ok(body);
        }
        if self.consume_reserved(Reserved::Do)? {
            let body = self.parse_comp_stmt()?;
            self.expect_reserved(Reserved::End)?;
            return Ok(body);
        }
        let loc = self.loc();
        let tok = self.get()?;
        Err(error_unexpected(
            loc,
            format!("Expected 'do' or '{{'. Actual:{:?}", tok.kind),
        ))
    }

    /// Parse template (#{..}'''))

R('block-split', (P, '''        let old_suppress_mul_flag = self.suppress_mul_assign;
        self.suppress_mul_assign = false;
        let do_flag =
            if !self.suppress_do_block && self.consume_reserved_no_skip_line_term(Reserved::Do)? {
                true
            } else if self.consume_punct_no_term(Punct::LBrace)? {
                false
            } else {
                self.suppress_mul_assign = old_suppress_mul_flag;
                return Ok(None);
            };
        // BLOCK''', '''        let do_flag =
            if !self.suppress_do_block && self.consume_reserved_no_skip_line_term(Reserved::Do)? {
                true
            } else if self.consume_punct_no_term(Punct::LBrace)? {
                false
            } else {
                return Ok(None);
            };
        let node = self.parse_block_body(do_flag)?;
        Ok(Some(Box::new(node)))
    }

    fn parse_block_body(&mut self, do_flag: bool) -> Result<Node, LexerErr> {
        let old_suppress_mul_flag = std::mem::replace(&mut self.suppress_mul_assign, false);
        // BLOCK'''), (P, '''        self.suppress_mul_assign = old_suppress_mul_flag;
        Ok(Some(Box::new(node)))
    }
''', '''        self.suppress_mul_assign = old_suppress_mul_flag;
        Ok(node)
    }
'''))

R('stmt-modifier-match', (E, '''        loop {
            if self.consume_reserved_no_skip_line_term(Reserved::If)? {
                // STMT : STMT if EXPR
                let loc = self.prev_loc();
                let cond = self.parse_expr()?;
                node = Node::new_if(cond, node, Node::new_comp_stmt(vec![], loc), loc);
            } else if self.consume_reserved_no_skip_line_term(Reserved::Unless)? {
                // STMT : STMT unless EXPR
                let loc = self.prev_loc();
                let cond = self.parse_expr()?;
                node = Node::new_if(cond, Node::new_comp_stmt(vec![], loc), node, loc);
            } else if self.consume_reserved_no_skip_line_term(Reserved::While)? {
                // STMT : STMT while EXPR
                let loc = self.prev_loc();
                let cond = self.parse_expr()?;
                let loc = loc.merge(self.prev_loc());
                node = Node::new_while_postfix(cond, node, true, loc);
            } else if self.consume_reserved_no_skip_line_term(Reserved::Until)? {
                // STMT : STMT until EXPR
                let loc = self.prev_loc();
                let cond = self.parse_expr()?;
                let loc = loc.merge(self.prev_loc());
                node = Node::new_while_postfix(cond, node, false, loc);
            } else if self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
                // STMT : STMT rescue EXPR
                let rescue = self.parse_expr()?;
                node = Node::new_begin(node, vec![RescueEntry::new_postfix(rescue)], None, None);
            } else {
                break;
            }
        }
        // STMT : EXPR
        Ok(node)
''', '''        while let TokenKind::Reserved(modifier) = self.peek_no_term()?.kind {
            if !matches!(
                modifier,
                Reserved::If
                    | Reserved::Unless
                    | Reserved::While
                    | Reserved::Until
                    | Reserved::Rescue
            ) {
                break;
            }
            self.get()?;
            let loc = self.prev_loc();
            let operand = self.parse_expr()?;
            node = match modifier {
                Reserved::If => Node::new_if(operand, node, Node::new_comp_stmt(vec![], loc), loc),
                Reserved::Unless => {
                    Node::new_if(operand, Node::new_comp_stmt(vec![], loc), node, loc)
                }
                Reserved::Rescue => {
                    Node::new_begin(node, vec![RescueEntry::new_postfix(operand)], None, None)
                }
                _ => {
                    let loc = loc.merge(self.prev_loc());
                    Node::new_while_postfix(operand, node, modifier == Reserved::While, loc)
                }
            };
        }
        // STMT : EXPR
        Ok(node)
'''))

R('rename-comp', (E, 'self.parse_arg_comp()', 'self.parse_comparison()'), (E, 'fn parse_arg_comp(', 'fn parse_comparison('))
R('rename-arglist', (E, 'self.parse_arglist(', 'self.parse_arguments('), (E, 'fn parse_arglist(', 'fn parse_arguments('))
R('split-expr', (E, '''        let mut node = self.parse_not()?;
        loop {
            if self.consume_reserved_no_skip_line_term(Reserved::And)? {
                let rhs = self.parse_not()?;
                node = Node::new_binop(BinOp::LAnd, node, rhs);
            } else if self.consume_reserved_no_skip_line_term(Reserved::Or)? {
                let rhs = self.parse_not()?;
                node = Node::new_binop(BinOp::LOr, node, rhs);
            } else {
                return Ok(node);
            }
        }
''', '''        let mut node = self.parse_not()?;
        loop {
            let op = match self.peek_no_term()?.kind {
                TokenKind::Reserved(Reserved::And) => BinOp::LAnd,
                TokenKind::Reserved(Reserved::Or) => BinOp::LOr,
                _ => break,
            };
            self.get()?;
            let rhs = self.parse_not()?;
            node = Node::new_binop(op, node, rhs);
        }
        Ok(node)
'''))

R('binop-table', (E, '''    fn parse_arg_shift(&mut self) -> Result<Node, LexerErr> {
        let mut lhs = self.parse_arg_add()?;
        loop {
            if self.consume_punct_no_term(Punct::Shl)? {
                lhs = Node::new_binop(BinOp::Shl, lhs, self.parse_arg_add()?);
            } else if self.consume_punct_no_term(Punct::Shr)? {
                lhs = Node::new_binop(BinOp::Shr, lhs, self.parse_arg_add()?);
            } else {
                break;
            }
        }
        Ok(lhs)
    }

    fn parse_arg_add(&mut self) -> Result<Node, LexerErr> {
        let mut lhs = self.parse_arg_mul()?;
        loop {
            if self.consume_punct_no_term(Punct::Plus)? {
                let rhs = self.parse_arg_mul()?;
                lhs = Node::new_binop(BinOp::Add, lhs, rhs);
            } else if self.consume_punct_no_term(Punct::Minus)? {
                let rhs = self.parse_arg_mul()?;
                lhs = Node::new_binop(BinOp::Sub, lhs, rhs);
            } else {
                break;
            }
        }
        Ok(lhs)
    }
''', '''    fn parse_arg_shift(&mut self) -> Result<Node, LexerErr> {
        self.parse_left_assoc(
            Self::parse_arg_add,
            &[(Punct::Shl, BinOp::Shl), (Punct::Shr, BinOp::Shr)],
        )
    }

    fn parse_arg_add(&mut self) -> Result<Node, LexerErr> {
        self.parse_left_assoc(
            Self::parse_arg_mul,
            &[(Punct::Plus, BinOp::Add), (Punct::Minus, BinOp::Sub)],
        )
    }

    /// Parse left-associative binary operators of one level.
    fn parse_left_assoc(
        &mut self,
        operand: fn(&mut Self) -> Result<Node, LexerErr>,
        ops: &[(Punct, BinOp)],
    ) -> Result<Node, LexerErr> {
        let mut lhs = operand(self)?;
        'next: loop {
            for (punct, op) in ops {
                if self.consume_punct_no_term(*punct)? {
                    let rhs = operand(self)?;
                    lhs = Node::new_binop(*op, lhs, rhs);
                    continue 'next;
                }
            }
            return Ok(lhs);
        }
    }
'''))

R('bitand-while', (E, '''        let mut lhs = self.parse_arg_shift()?;
        loop {
            if self.consume_punct_no_term(Punct::BitAnd)? {
                lhs = Node::new_binop(BinOp::BitAnd, lhs, self.parse_arg_shift()?);
            } else {
                break;
            }
        }
        Ok(lhs)
''', '''        let mut node = self.parse_arg_shift()?;
        while self.consume_punct_no_term(Punct::BitAnd)? {
            let rhs = self.parse_arg_shift()?;
            node = Node::new_binop(BinOp::BitAnd, node, rhs);
        }
        Ok(node)
'''))

R('check-lhs-match', (E, '''        let loc = lhs.loc();
        if let NodeKind::Ident(name) = lhs.kind {
            if name.starts_with('_') {
                let mut iter = name.chars();
                iter.next();
                if let Some(ch1) = iter.next() {
                    if ch1.is_ascii_digit() && iter.next().is_none() {
                        // lhs is numbered parameter literal
                        return Err(error_numbered_param(
                            lhs.loc,
                            (ch1 as u32 - '0' as u32) as u8,
                        ));
                    }
                }
            }
            let outer''', '''        let loc = lhs.loc();
        if let NodeKind::Ident(name) = lhs.kind {
            if let [b'_', digit @ b'0'..=b'9'] = name.as_bytes() {
                // lhs is numbered parameter literal
                return Err(error_numbered_param(loc, digit - b'0'));
            }
            let outer'''))

R('is-command-helper', (E, '''                TokenKind::Reserved(r) => !matches!(
                    r,
                    Reserved::Do
                        | Reserved::If
                        | Reserved::Unless
                        | Reserved::Rescue
                        | Reserved::While
                        | Reserved::Until
                        | Reserved::And
                        | Reserved::Or
                        | Reserved::Then
                        | Reserved::Elsif
                        | Reserved::Else
                        | Reserved::When
                        | Reserved::Ensure
                        | Reserved::In
                        | Reserved::End
                ),
                TokenKind::Eof => false,
''', '''                TokenKind::Reserved(r) => Self::begins_argument(r),
                TokenKind::Eof => false,
'''), (E, '''    fn is_command(''', '''    fn begins_argument(r: Reserved) -> bool {
        match r {
            Reserved::Do
            | Reserved::If
            | Reserved::Unless
            | Reserved::Rescue
            | Reserved::While
            | Reserved::Until
            | Reserved::And
            | Reserved::Or
            | Reserved::Then
            | Reserved::Elsif
            | Reserved::Else
            | Reserved::When
            | Reserved::Ensure
            | Reserved::In
            | Reserved::End => false,
            _ => true,
        }
    }

    fn is_command('''))

R('arglist-block-match', (E, '''        let mut arglist = self.parse_arglist(delimiter)?;
        if let Some(actual_block) = self.parse_block()? {
            if arglist.block.is_some() {
                return Err(error_unexpected(
                    actual_block.loc(),
                    "Both block arg and actual block given.",
                ));
            }
            arglist.block = Some(actual_block);
        };
        Ok(arglist)
''', '''        let mut arglist = self.parse_arglist(delimiter)?;
        let actual_block = match self.parse_block()? {
            Some(block) => block,
            None => return Ok(arglist),
        };
        match arglist.block {
            None => {
                arglist.block = Some(actual_block);
                Ok(arglist)
            }
            Some(_) => Err(error_unexpected(
                actual_block.loc(),
                "Both block arg and actual block given.",
            )),
        }
'''))

R('mul-assign-item-helper', (E, '''            let node = if self.consume_punct(Punct::Mul)? {
                if splat_flag {
                    let loc = self.prev_loc();
                    return Err(error_unexpected(
                        loc,
                        "Multiple splat operators are not allowed.",
                    ));
                }
                splat_flag = true;
                let node = self.parse_method_call()?;
                let loc = node.loc;
                Node::new_splat(node, loc)
            } else {
                self.parse_method_call()?
            };
            mlhs.push(node);
''', '''            let node = self.parse_mlhs_item(&mut splat_flag)?;
            mlhs.push(node);
'''), (E, '''    /// Parse rhs of multiple assignment.
    /// If''', '''    fn parse_mlhs_item(&mut self, splat_flag: &mut bool) -> Result<Node, LexerErr> {
        if !self.consume_punct(Punct::Mul)? {
            return self.parse_method_call();
        }
        if *splat_flag {
            let loc = self.prev_loc();
            return Err(error_unexpected(
                loc,
                "Multiple splat operators are not allowed.",
            ));
        }
        *splat_flag = true;
        let node = self.parse_method_call()?;
        let loc = node.loc;
        Ok(Node::new_splat(node, loc))
    }

    /// Parse rhs of multiple assignment.
    /// If'''), (E, '''        for lhs in &mut mlhs {
            let mut node = self.check_lhs(std::mem::take(lhs))?;
            std::mem::swap(lhs, &mut node);
        }
        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;

        Ok(Node::new_mul_assign(mlhs, mrhs))''', '''        let mut targets = vec![];
        for lhs in mlhs {
            targets.push(self.check_lhs(lhs)?);
        }
        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;

        Ok(Node::new_mul_assign(targets, mrhs))'''))

R('scope-resolution-helper', (E, '''                if let TokenKind::Const(_) = self.peek()?.kind {
                    let loc = node.loc;
                    let name = self.expect_const()?;
                    if self.consume_punct_no_term(Punct::LParen)? {
                        // Foo::Bar()
                        let arglist = self.parse_arglist_block(Punct::RParen)?;
                        Node::new_mcall(node, name, arglist, false, self.prev_loc())
                    } else if let NodeKind::Const {
                        toplevel,
                        parent,
                        mut prefix,
                        name: parent_name,
                    } = node.kind
                    {
                        prefix.push(parent_name);
                        Node::new_const(name, toplevel, parent, prefix, self.prev_loc().merge(loc))
                    } else {
                        Node::new_const(
                            name,
                            false,
                            Some(Box::new(node)),
                            vec![],
                            self.prev_loc().merge(loc),
                        )
                    }
                } else {
                    self.parse_primary_method(node, false)?
                }
''', '''                match self.peek()?.kind {
                    TokenKind::Const(_) => self.parse_scoped_const(node)?,
                    _ => self.parse_primary_method(node, false)?,
                }
'''), (E, '''    fn parse_yield(''', '''    fn parse_scoped_const(&mut self, node: Node) -> Result<Node, LexerErr> {
        let loc = node.loc;
        let name = self.expect_const()?;
        if self.consume_punct_no_term(Punct::LParen)? {
            // Foo::Bar()
            let arglist = self.parse_arglist_block(Punct::RParen)?;
            return Ok(Node::new_mcall(node, name, arglist, false, self.prev_loc()));
        }
        let loc = self.prev_loc().merge(loc);
        match node.kind {
            NodeKind::Const {
                toplevel,
                parent,
                mut prefix,
                name: parent_name,
            } => {
                prefix.push(parent_name);
                Ok(Node::new_const(name, toplevel, parent, prefix, loc))
            }
            _ => Ok(Node::new_const(
                name,
                false,
                Some(Box::new(node)),
                vec![],
                loc,
            )),
        }
    }

    fn parse_yield('''))

R('inline-do', (F, '''        self.parse_do()?;
        let body = self.parse_comp_stmt()?;
        self.expect_reserved(Reserved::End)?;
        self.loop_stack''', '''        if !self.consume_term()? {
            self.expect_reserved(Reserved::Do)?;
        }
        let body = self.parse_comp_stmt()?;
        self.expect_reserved(Reserved::End)?;
        self.loop_stack'''))

R('for-vars-helper', (F, '''        let mut vars = vec![];
        let terminator = if self.consume_punct(Punct::LParen)? {
            Some(Punct::RParen)
        } else {
            None
        };
        loop {
            let name = self.expect_ident()?;
            let outer = self.add_local_var_if_new(&name);
            vars.push((outer, name));
            if let Some(term) = terminator {
                if self.consume_punct(term)? {
                    break;
                }
            }
            if !self.consume_punct(Punct::Comma)? {
                if let Some(term) = terminator {
                    self.expect_punct(term)?;
                }
                break;
            }
            if let Some(term) = terminator {
                if self.consume_punct(term)? {
                    break;
                }
            }
        }
''', '''        let mut vars = vec![];
        let paren = self.consume_punct(Punct::LParen)?;
        loop {
            let name = self.expect_ident()?;
            vars.push((self.add_local_var_if_new(&name), name));
            if paren && self.consume_punct(Punct::RParen)? {
                break;
            }
            if !self.consume_punct(Punct::Comma)? {
                if paren {
                    self.expect_punct(Punct::RParen)?;
                }
                break;
            }
            if paren && self.consume_punct(Punct::RParen)? {
                break;
            }
        }
'''))
R('ternary-early-return', (E, '''        if self.consume_punct_no_term(Punct::Question)? {
            let then_ = self.parse_arg()?;
            if !self.consume_punct_no_term(Punct::Colon)? {
                return Err(self.error_next("Expect ':'."));
            };
            let else_ = self.parse_arg()?;
            let node = Node::new_if(cond, then_, else_, loc);
            Ok(node)
        } else {
            Ok(cond)
        }
''', '''        if !self.consume_punct_no_term(Punct::Question)? {
            return Ok(cond);
        }
        let then_ = self.parse_arg()?;
        if self.consume_punct_no_term(Punct::Colon)? {
            let else_ = self.parse_arg()?;
            return Ok(Node::new_if(cond, then_, else_, loc));
        }
        Err(self.error_next("Expect ':'."))
'''))
R('string-literal-while', (L, '''        loop {
            match self.peek_no_term()?.kind {
                TokenKind::StringLit(next_s) => {
                    self.get()?;
                    s += &next_s;
                }
                TokenKind::OpenString(next_s, delimiter, level) => {
                    self.get()?;
                    s += next_s.as_str();
                    return self.parse_interporated_string_literal(s, delimiter, level);
                }
                _ => break,
            }
        }
        Ok(Node::new_string(s, loc))
''', '''        while let TokenKind::StringLit(next_s) = self.peek_no_term()?.kind {
            self.get()?;
            s += &next_s;
        }
        if let TokenKind::OpenString(next_s, delimiter, level) = self.peek_no_term()?.kind {
            self.get()?;
            s += next_s.as_str();
            return self.parse_interporated_string_literal(s, delimiter, level);
        }
        Ok(Node::new_string(s, loc))
'''))

R('lvar-lookup-iter', (P, '''        let mut outer = 0;
        for c in self.scope.iter().rev() {
            if c.lvar.table.get_lvarid(id).is_some() {
                return Some(outer);
            }
            match c.kind {
                ScopeKind::Block => outer += 1,
                ScopeKind::For => {}
                ScopeKind::Eval => break,
                // outer local variables are not visible from the body of method and class.
                ScopeKind::Method | ScopeKind::Class => return None,
            }
        }
''', '''        let mut outer = 0;
        for LvarScope { kind, lvar } in self.scope.iter().rev() {
            match lvar.table.get_lvarid(id) {
                Some(_) => return Some(outer),
                None => {}
            }
            if *kind == ScopeKind::Block {
                outer += 1;
            } else if matches!(kind, ScopeKind::Method | ScopeKind::Class) {
                return None;
            } else if *kind == ScopeKind::Eval {
                break;
            }
        }
'''))

R('lvar-add-find', (P, '''        if let Some(outer) = self.is_local_var(&name) {
            return outer;
        } else {
            for c in self.scope.iter_mut().rev() {
                match c.kind {
                    ScopeKind::For => {}
                    _ => {
                        c.lvar.insert(name);
                        return 0;
                    }
                };
            }
        }
        unreachable!()
''', '''        match self.is_local_var(name) {
            Some(outer) => outer,
            None => {
                let c = self
                    .scope
                    .iter_mut()
                    .rev()
                    .find(|c| c.kind != ScopeKind::For)
                    .unwrap();
                c.lvar.insert(name);
                0
            }
        }
'''))

R('scope-enter-leave', (P, '''    fn scope_mut(&mut self) -> &mut LvarScope {
''', '''    fn enter_scope(&mut self, scope: LvarScope, kind: LoopKind) {
        self.loop_stack.push(kind);
        self.scope.push(scope);
    }

    fn leave_scope(&mut self) -> LvarCollector {
        self.loop_stack.pop().unwrap();
        self.scope.pop().unwrap().lvar
    }

    fn scope_mut(&mut self) -> &mut LvarScope {
'''), (P, '''        self.scope.push(LvarScope::new_block(None));
        self.loop_stack.push(LoopKind::Block);
''', '''        self.enter_scope(LvarScope::new_block(None), LoopKind::Block);
'''), (P, '''        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;
        let loc = loc.merge(self.prev_loc());
        let node = Node::new_lambda(''', '''        let lvar = self.leave_scope();
        let loc = loc.merge(self.prev_loc());
        let node = Node::new_lambda('''), (D, '''        self.scope.push(LvarScope::new_class(None));
        self.loop_stack.push(LoopKind::Top);
        let body = self.parse_begin()?;
        self.loop_stack.pop().unwrap();
        let lvar = self.scope.pop().unwrap().lvar;

        Ok(Node::new_singleton''', '''        self.enter_scope(LvarScope::new_class(None), LoopKind::Top);
        let body = self.parse_begin()?;
        let lvar = self.leave_scope();

        Ok(Node::new_singleton'''))

R('table-insert-shared', ('src/lvar_collector.rs', '''        match self.table.get_lvarid(val) {
            Some(id) => id,
            None => {
                self.table.push(val.to_string());
                (self.len() - 1).into()
            }
        }
''', '''        if let Some(id) = self.table.get_lvarid(val) {
            return id;
        }
        let id = LvarId(self.table.0.len());
        self.table.push(val.to_owned());
        id
'''), ('src/lvar_collector.rs', '''        match self.table.get_lvarid(&val) {
            Some(_) => None,
            None => {
                self.table.push(val);
                Some(LvarId::from(self.len() - 1))
            }
        }
''', '''        if self.table.0.contains(&val) {
            return None;
        }
        Some(self.insert(&val))
'''))

R('param-insert-helper', (P, '''        if self.scope_mut().lvar.insert_kwrest_param(name).is_none() {
            return Err(error_unexpected(loc, "Duplicated argument name."));
        }
        Ok(())
''', '''        let id = self.scope_mut().lvar.insert_kwrest_param(name);
        Self::entered(id, loc)?;
        Ok(())
'''), (P, '''        match self.scope_mut().lvar.insert_new(name) {
            Some(lvar) => Ok(lvar),
            None => Err(error_unexpected(loc, "Duplicated argument name.")),
        }
    }
''', '''        Self::entered(self.scope_mut().lvar.insert_new(name), loc)
    }

    fn entered(id: Option<LvarId>, loc: Loc) -> Result<LvarId, LexerErr> {
        id.ok_or_else(|| error_unexpected(loc, "Duplicated argument name."))
    }
'''))

X = 'src/parser/lexer.rs'

R('lx-assign-helper', (X, '''                    '+' => {
                        if self.consume('=') {
                            return Ok(self.new_punct(Punct::AssignOp(BinOp::Add)));
                        } else {
                            return Ok(self.new_punct(Punct::Plus));
                        }
                    }
''', '''                    '+' => return Ok(self.op_or_assign(Punct::Plus, BinOp::Add)),
'''), (X, '''                    '%' => {
                        if self.consume('=') {
                            return Ok(self.new_punct(Punct::AssignOp(BinOp::Rem)));
                        } else {
                            return Ok(self.new_punct(Punct::Rem));
                        }
                    }
                    '/' => {
                        if self.consume('=') {
                            return Ok(self.new_punct(Punct::AssignOp(BinOp::Div)));
                        } else {
                            return Ok(self.new_punct(Punct::Div));
                        }
                    }
''', '''                    '%' => return Ok(self.op_or_assign(Punct::Rem, BinOp::Rem)),
                    '/' => return Ok(self.op_or_assign(Punct::Div, BinOp::Div)),
'''), (X, '''    fn read_global_var(&mut self)''', '''    /// `op` or `op=`
    fn op_or_assign(&mut self, punct: Punct, op: BinOp) -> Token {
        let punct = if self.consume('=') {
            Punct::AssignOp(op)
        } else {
            punct
        };
        self.new_punct(punct)
    }

    fn read_global_var(&mut self)'''))

R('lx-dot-match', (X, '''                        if self.consume('.') {
                            if self.consume('.') {
                                return Ok(self.new_punct(Punct::Range3));
                            } else {
                                return Ok(self.new_punct(Punct::Range2));
                            }
                        } else {
                            return Ok(self.new_punct(Punct::Dot));
                        }
''', '''                        let mut dots = 1;
                        while dots < 3 && self.consume('.') {
                            dots += 1;
                        }
                        let punct = match dots {
                            1 => Punct::Dot,
                            2 => Punct::Range2,
                            _ => Punct::Range3,
                        };
                        return Ok(self.new_punct(punct));
'''))

R('lx-eq-peek', (X, '''                        if self.consume('=') {
                            if self.consume('=') {
                                return Ok(self.new_punct(Punct::TEq));
                            } else {
                                return Ok(self.new_punct(Punct::Eq));
                            }
                        } else if self.consume('>') {
                            return Ok(self.new_punct(Punct::FatArrow));
                        } else if self.consume('~') {
                            return Ok(self.new_punct(Punct::Match));
                        } else {
                            return Ok(self.new_punct(Punct::Assign));
                        }
''', '''                        let punct = match self.peek() {
                            Some('=') if self.peek2() == Some('=') => {
                                self.get()?;
                                self.get()?;
                                Punct::TEq
                            }
                            Some('=') => {
                                self.get()?;
                                Punct::Eq
                            }
                            Some('>') => {
                                self.get()?;
                                Punct::FatArrow
                            }
                            Some('~') => {
                                self.get()?;
                                Punct::Match
                            }
                            _ => Punct::Assign,
                        };
                        return Ok(self.new_punct(punct));
'''))

R('lx-number-split', (X, '''        let mut s = ch.to_string();
        let mut float_flag = false;
        loop {
            if let Some(ch) = self.consume_numeric() {
                s.push(ch);
            } else if self.consume('_') {
            } else if !float_flag && self.peek() == Some('.') {
                match self.peek2() {
                    Some(ch) if ch.is_ascii() && ch.is_numeric() => {
                        self.get()?;
                        self.get()?;
                        float_flag = true;
                        s.push('.');
                        s.push(ch);
                    }
                    _ => break,
                }
            } else {
                break;
            }
        }
''', '''        let mut s = ch.to_string();
        let mut float_flag = false;
        self.read_digits(&mut s);
        if self.peek() == Some('.') && matches!(self.peek2(), Some('0'..='9')) {
            self.get()?;
            float_flag = true;
            s.push('.');
            self.read_digits(&mut s);
        }
'''), (X, '''            loop {
                if let Some(ch) = self.consume_numeric() {
                    s.push(ch);
                } else if self.consume('_') {
                } else {
                    break;
                }
            }
            float_flag = true;
''', '''            self.read_digits(&mut s);
            float_flag = true;
'''), (X, '''    /// Read hexadecimal number.
''', '''    /// Read digits and underscores.
    fn read_digits(&mut self, s: &mut String) {
        loop {
            match self.peek() {
                Some(ch @ '0'..='9') => s.push(ch),
                Some('_') => {}
                _ => return,
            }
            self.pos += 1;
        }
    }

    /// Read hexadecimal number.
'''))

R('lx-radix-helper', (X, '''        let s = &self.code[start_pos..self.pos];
        match BigInt::parse_bytes(s.as_bytes(), 16) {
            Some(b) => match b.to_i64() {
                Some(i) => Ok(self.new_numlit(i)),
                None => Ok(self.new_bignumlit(b)),
            },
            None => Err(Self::error_parse("Invalid hex number literal.", self.pos)),
        }
''', '''        self.new_radix_numlit(start_pos, 16)
'''))

R('lx-skip-ws-match', (X, '''            if self.consume_newline() {
                res = Some(self.new_line_term());
            } else if !self.consume_cont_line() && !self.consume_whitespace() {
                self.token_start_pos = self.pos;
                return res;
            }
''', '''            if self.consume_newline() {
                res = Some(self.new_line_term());
                continue;
            }
            if self.consume_cont_line() || self.consume_whitespace() {
                continue;
            }
            self.token_start_pos = self.pos;
            return res;
'''))

R('lx-escape-table', (X, '''            'a' => '\\x07',
            'b' => '\\x08',
            'e' => '\\x1b',
            'f' => '\\x0c',
            'n' => '\\x0a',
            'r' => '\\x0d',
            's' => '\\x20',
            't' => '\\x09',
            'v' => '\\x0b',
            'x' => {
''', '''            c @ ('a' | 'b' | 'e' | 'f' | 'n' | 'r' | 's' | 't' | 'v') => Self::control_char(c),
            'x' => {
'''), (X, '''    fn read_escaped_char(&mut self''', '''    fn control_char(c: char) -> char {
        match c {
            'a' => '\\x07',
            'b' => '\\x08',
            'v' => '\\x0b',
            'f' => '\\x0c',
            'e' => '\\x1b',
            'n' => '\\n',
            'r' => '\\r',
            's' => ' ',
            _ => '\\t',
        }
    }

    fn read_escaped_char(&mut self'''))

R('lx-hex-escape-helper', (X, '''                let c1 = self.expect_hex()?;
                let c2 = self.consume_hex();
                let c = if let Some(c2) = c2 { c1 * 16 + c2 } else { c1 };
                if c > 0x7f {
                    buf.push_byte(c as u8);
                } else {
                    buf.push_char(char::from_u32(c).unwrap());
                }
                return Ok(());
''', '''                let mut c = self.expect_hex()?;
                if let Some(c2) = self.consume_hex() {
                    c = (c << 4) | c2;
                }
                match c as u8 {
                    c @ 0..=0x7f => buf.push_char(c as char),
                    c => buf.push_byte(c),
                }
                return Ok(());
'''))

R('lx-to-digit', (X, '''            Some(ch) => match ch {
                ch @ '0'..='9' => ch as u32 - '0' as u32,
                ch @ 'a'..='f' => ch as u32 - 'a' as u32 + 10,
                ch @ 'A'..='F' => ch as u32 - 'A' as u32 + 10,
                _ => return Err(self.error_unexpected(self.pos)),
            },
            _ => return Err(Self::error_eof(self.pos)),
        };
        self.pos += 1;
        Ok(n)
''', '''            Some(ch) => match ch.to_digit(16) {
                Some(n) => n,
                None => return Err(self.error_unexpected(self.pos)),
            },
            None => return Err(Self::error_eof(self.pos)),
        };
        self.pos += 1;
        Ok(n)
'''))

R('lx-interpolate-guard', (X, '''                '#' => match self.peek() {
                    // string interpolation
                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
                        return Ok(InterpolateState::NewInterpolation(s, level))
                    }
                    _ => s.push_char('#'),
                },
                '\\n' => {
                    s.push_char('\\n');
                    self.skip_heredocument();
                }
                c => s.push_char(c),
''', '''                '#' if self.is_interpolation() => {
                    return Ok(InterpolateState::NewInterpolation(s, level))
                }
                c => {
                    s.push_char(c);
                    if c == '\\n' {
                        self.skip_heredocument();
                    }
                }
'''), (X, '''                '#' => match self.peek() {
                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
                        return Ok(InterpolateState::NewInterpolation(body.into(), 0))
                    }
                    _ => body.push('#'),
                },
''', '''                '#' if self.is_interpolation() => {
                    return Ok(InterpolateState::NewInterpolation(body.into(), 0))
                }
'''), (X, '''    fn read_unicode_escape_sequence(''', '''    fn is_interpolation(&self) -> bool {
        matches!(self.peek(), Some('{' | '$' | '@'))
    }

    fn read_unicode_escape_sequence('''))

R('lx-level-if', (X, '''            match ch {
                c if open == Some(c) => {
                    s.push_char(c);
                    level += 1;
                }
                c if Some(c) == term => {
                    if level == 0 {
                        return Ok(InterpolateState::Finished(s));
                    } else {
                        s.push_char(c);
                        level -= 1;
                    }
                }
''', '''            if open == Some(ch) {
                level += 1;
                s.push_char(ch);
                continue;
            }
            if term == Some(ch) {
                if level == 0 {
                    return Ok(InterpolateState::Finished(s));
                }
                level -= 1;
                s.push_char(ch);
                continue;
            }
            match ch {
'''))

R('lx-single-depth', (X, '''        let mut s = "".to_string();
        let mut level = 0;
        loop {
            match self.get()? {
                c if open == Some(c) => {
                    s.push(c);
                    level += 1;
                }
                c if c == term => {
                    if level == 0 {
                        return Ok(s);
                    } else {
                        s.push(c);
                        level -= 1;
                    }
                }
''', '''        let mut s = String::new();
        let mut depth = 1;
        loop {
            match self.get()? {
                c if open == Some(c) => {
                    s.push(c);
                    depth += 1;
                }
                c if c == term => {
                    depth -= 1;
                    if depth == 0 {
                        return Ok(s);
                    }
                    s.push(c);
                }
'''))

R('lx-ident-while', (X, '''        let start = self.pos;
        loop {
            match self.peek() {
                Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii() => {
                    self.get().unwrap()
                }
                _ => break,
            };
        }
        start..self.pos
''', '''        let start = self.pos;
        while let Some(ch) = self.peek() {
            if !(ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii()) {
                break;
            }
            self.pos += ch.len_utf8();
        }
        start..self.pos
'''))

R('lx-ident-suffix', (X, '''        match self.peek() {
            Some(ch) if (ch == '!' && self.peek2() != Some('=')) || ch == '?' => {
                self.get().unwrap();
            }
            _ => {}
        };
        let tok = self.current_slice();
        if let Some(reserved) = check_reserved(tok) {
            return Ok(self.new_reserved(reserved));
        };

        if is_const {
            Ok(self.new_const(tok))
        } else {
            Ok(self.new_ident(tok))
        }
''', '''        let has_suffix = match self.peek() {
            Some('?') => true,
            Some('!') => self.peek2() != Some('='),
            _ => false,
        };
        if has_suffix {
            self.pos += 1;
        }
        let name = self.current_slice();
        Ok(match check_reserved(name) {
            Some(reserved) => self.new_reserved(reserved),
            None if is_const => self.new_const(name),
            None => self.new_ident(name),
        })
'''))

R('lx-varkind-match', (X, '''        match var_kind {
            VarKind::InstanceVar => return Ok(self.new_instance_var(tok)),
            VarKind::ClassVar => return Ok(self.new_class_var(tok)),
            VarKind::GlobalVar => {
                if tok == "$LOAD_PATH" {
                    return Ok(self.new_special_var(SPECIAL_LOADPATH));
                } else if tok == "$LOADED_FEATURES" {
                    return Ok(self.new_special_var(SPECIAL_LOADEDFEATURES));
                } else {
                    return Ok(self.new_global_var(tok));
                }
            }
            _ => {}
        }
''', '''        let var = match var_kind {
            VarKind::Identifier => None,
            VarKind::InstanceVar => Some(self.new_instance_var(tok)),
            VarKind::ClassVar => Some(self.new_class_var(tok)),
            VarKind::GlobalVar => Some(match tok {
                "$LOAD_PATH" => self.new_special_var(SPECIAL_LOADPATH),
                "$LOADED_FEATURES" => self.new_special_var(SPECIAL_LOADEDFEATURES),
                _ => self.new_global_var(tok),
            }),
        };
        if let Some(var) = var {
            return Ok(var);
        }
'''))

R('lx-postfix-match', (X, '''        loop {
            if self.consume('i') {
                // ignore case
                s.push('i');
            } else if self.consume('m') {
                // match "." for newline
                s.push('s');
            } else if self.consume('x') {
                // free format mode
                //s.push('x');
                free_format = true;
            } else if self.consume('o') {
                // expand "#{}" only once
                //s.push('o');
            } else if self.consume('u') {
                // Encoding+ utf-8
            } else if self.consume('n') {
                // Encoding+ ASCII-8bit
            } else {
                break;
            };
        }
''', '''        while let Some(ch) = self.peek() {
            match ch {
                // ignore case
                'i' => s.push('i'),
                // match "." for newline
                'm' => s.push('s'),
                // free format mode
                'x' => free_format = true,
                // ignored
                'o' | 'u' | 'n' => {}
                _ => break,
            }
            self.pos += 1;
        }
'''))

R('lx-regexp-class-bool', (X, '''                        'a' => body += "\\\\a",
''', '''                        'a' => body.push_str("\\\\a"),
'''), (X, '''                            // CRuby allows not only "\\x1f" but "\\xf".
                            let mut x = 0;
                            if let Some(c) = self.consume_hex() {
                                x += c;
                                if let Some(c) = self.consume_hex() {
                                    x = x * 16 + c;
                                }
                                body += &format!("\\\\x{:02x}", x);
                            } else {
                                body += "\\\\x";
                            }
''', '''                            // CRuby allows not only "\\x1f" but "\\xf".
                            match self.consume_hex() {
                                Some(c1) => {
                                    let x = match self.consume_hex() {
                                        Some(c2) => c1 * 16 + c2,
                                        None => c1,
                                    };
                                    body += &format!("\\\\x{:02x}", x);
                                }
                                None => body += "\\\\x",
                            }
'''))

R('lx-percent-delims', (X, '''        let (open, term) = match delimiter {
            '(' => (Some('('), ')'),
            '{' => (Some('{'), '}'),
            '[' => (Some('['), ']'),
            '<' => (Some('<'), '>'),
            ' ' | '\\n' => match kind {
                Some('i') | Some('I') | Some('w') | Some('W') => {
                    return Err(self.error_unexpected(self.pos - 1))
                }
                _ => (None, delimiter),
            },
            ch => (None, ch),
        };
''', '''        if matches!(delimiter, ' ' | '\\n') && matches!(kind, Some('i' | 'I' | 'w' | 'W')) {
            return Err(self.error_unexpected(self.pos - 1));
        }
        let (open, term) = match Self::closing(delimiter) {
            Some(close) => (Some(delimiter), close),
            None => (None, delimiter),
        };
'''), (X, '''    fn read_escaped_char(&mut self''', '''    fn closing(open: char) -> Option<char> {
        Some(match open {
            '(' => ')',
            '{' => '}',
            '[' => ']',
            '<' => '>',
            _ => return None,
        })
    }

    fn read_escaped_char(&mut self'''))

R('lx-heredoc-lines', (X, '''            let line = &self.code[start..end];
            if term_mode == TermMode::AllowIndent || term_mode == TermMode::Squiggly {
                if line.trim_start() == &self.code[delimiter.clone()] {
                    break;
                }
            } else if line == &self.code[delimiter.clone()] {
                break;
            }
''', '''            let mut line = &self.code[start..end];
            if term_mode != TermMode::Normal {
                line = line.trim_start();
            }
            if line == &self.code[delimiter.clone()] {
                break;
            }
'''))

R('lx-eol-find', (X, '''        loop {
            match self.peek() {
                Some('\\n') | None => return,
                Some(ch) => self.pos += ch.len_utf8(),
            };
        }
''', '''        while let Some(ch) = self.peek() {
            if ch == '\\n' {
                break;
            }
            self.pos += ch.len_utf8();
        }
'''))

R('lx-eol-bytes', (X, '''        loop {
            match self.peek() {
                Some('\\n') | None => return,
                Some(ch) => self.pos += ch.len_utf8(),
            };
        }
''', '''        let rest = &self.code[self.pos..];
        self.pos += rest.find('\\n').unwrap_or(rest.len());
'''))

R('lx-octal-fold', (X, '''        let mut o = first_ch as u8 - b'0';
        for _ in 0..2 {
            match self.consume_octal() {
                Some(n) => o = o.wrapping_mul(8) + n,
                None => break,
            };
        }
        Some(o)
''', '''        let mut o = first_ch as u8 - b'0';
        let mut rest = 2;
        while rest > 0 {
            let n = match self.consume_octal() {
                Some(n) => n,
                None => break,
            };
            o = o.wrapping_mul(8) + n;
            rest -= 1;
        }
        Some(o)
'''))

R('lx-unicode-while', (X, '''            for _ in 0..4 {
                u = 16 * u
                    + self.expect_hex().map_err(|_| {
                        Self::error_parse("Invalid Unicode escape sequence.", self.pos)
                    })?;
            }
''', '''            let mut count = 0;
            while count < 4 {
                match self.consume_hex() {
                    Some(h) => u = u * 16 + h,
                    None => {
                        return Err(Self::error_parse("Invalid Unicode escape sequence.", self.pos))
                    }
                }
                count += 1;
            }
'''))

R('lx-peek-bytes', (X, '''        match self.peek() {
            Some(ch) if ch == expect => {
                self.pos += ch.len_utf8();
                true
            }
            _ => false,
        }
    }

    /// Consume continuous''', '''        let found = self.peek() == Some(expect);
        if found {
            self.pos += expect.len_utf8();
        }
        found
    }

    /// Consume continuous'''))

R('lx-get-option', (X, '''        match self.peek() {
            Some(ch) => {
                self.pos += ch.len_utf8();
                Ok(ch)
            }
            _ => Err(Self::error_eof(self.pos)),
        }
    }

    /// Consume the next''', '''        let ch = self.peek().ok_or_else(|| Self::error_eof(self.pos))?;
        self.pos += ch.len_utf8();
        Ok(ch)
    }

    /// Consume the next'''))

R('lx-starts-with', (X, '''        if self.peek2() == Some('\\n') && self.peek() == Some('\\\\') {
            self.pos += 2;
''', '''        if self.code[self.pos..].starts_with("\\\\\\n") {
            self.pos += 2;
'''))

R('lx-global-special', (X, '''                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                    let ch = self.get()?;
                    match ch {
                        '&' => self.new_special_var(SPECIAL_LASTMATCH),
                        '\\'' => self.new_special_var(SPECIAL_POSTMATCH),
                        ':' => self.new_special_var(SPECIAL_LOADPATH),
                        '"' => self.new_special_var(SPECIAL_LOADEDFEATURES),
                        _ => self.new_global_var(format!("${}", ch)),
                    }
                }
''', '''                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                    self.get()?;
                    let special = match ch {
                        '&' => Some(SPECIAL_LASTMATCH),
                        '\\'' => Some(SPECIAL_POSTMATCH),
                        ':' => Some(SPECIAL_LOADPATH),
                        '"' => Some(SPECIAL_LOADEDFEATURES),
                        _ => None,
                    };
                    match special {
                        Some(id) => self.new_special_var(id),
                        None => self.new_global_var(self.current_slice()),
                    }
                }
'''))

R('lx-method-name-op', (X, '''                '<' => if self.consume('<') || (self.consume('=') && self.consume('>')) {},
                '>' => if self.consume('>') || self.consume('=') {},
''', '''                '<' => {
                    if self.consume('=') {
                        self.consume('>');
                    } else {
                        self.consume('<');
                    }
                }
                '>' => {
                    if !self.consume('=') {
                        self.consume('>');
                    }
                }
'''))

R('lx-reserved-iter', (X, '''    for reserved in all::<Reserved>() {
        if maybe_reserved == reserved.to_str() {
            return Some(reserved);
        }
    }
    None
''', '''    all::<Reserved>().find(|reserved| reserved.to_str() == maybe_reserved)
'''))

R('lx-string-finish', (X, '''        match self.read_interpolate(open, term, level)? {
            InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
            InterpolateState::NewInterpolation(s, level) => {
                Ok(self.new_open_string(s.as_string()?, open, term, level))
            }
            _ => unreachable!(),
        }
''', '''        let tok = match self.read_interpolate(open, term, level)? {
            InterpolateState::NewInterpolation(s, level) => {
                let s = s.as_string()?;
                self.new_open_string(s, open, term, level)
            }
            InterpolateState::Finished(s) => self.new_stringlit(s),
            InterpolateState::FinishedRegex { .. } => unreachable!(),
        };
        Ok(tok)
'''))

R('error-next-if', (P, """        match self.peek_no_term() {
            Ok(tok) if tok.is_eof() => error_eof(tok.loc()),
            Ok(tok) => error_unexpected(tok.loc(), msg),
            Err(err) => err,
        }
""", """        let tok = match self.peek_no_term() {
            Ok(tok) => tok,
            Err(err) => return err,
        };
        if !tok.is_eof() {
            return error_unexpected(tok.loc(), msg);
        }
        error_eof(tok.loc())
"""))
R('get-match', (P, """        loop {
            let tok = self.lexer.get_token()?;
            if tok.is_eof() {
                return Err(error_eof(tok.loc()));
            }
            if !tok.is_line_term() {
                self.prev_loc = tok.loc;
                return Ok(tok);
            }
        }
""", """        let mut tok = self.lexer.get_token()?;
        while tok.is_line_term() {
            tok = self.lexer.get_token()?;
        }
        match tok.kind {
            TokenKind::Eof => Err(error_eof(tok.loc())),
            _ => {
                self.prev_loc = tok.loc;
                Ok(tok)
            }
        }
"""))
R('expect-consume', (P, """        match &self.get()?.kind {
            TokenKind::Punct(punct) if *punct == expect => Ok(()),
            t => Err(error_unexpected(
                self.prev_loc(),
                format!("Expect {:?} Got {:?}", expect, t),
            )),
        }
""", """        let tok = self.get()?;
        if tok.kind == TokenKind::Punct(expect.clone()) {
            return Ok(());
        }
        let msg = format!("Expect {:?} Got {:?}", expect, tok.kind);
        Err(error_unexpected(tok.loc(), msg))
"""))
