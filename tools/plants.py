FC = 'src/parser/flow_control.rs'
DEF = 'src/parser/define.rs'
EXP = 'src/parser/expression.rs'
PAR = 'src/parser.rs'
LIT = 'src/parser/literals.rs'
LEX = 'src/parser/lexer.rs'
NODE = 'src/node.rs'


def bug(i, prop, edits, demo, needs, breaks, **k):
    B[i] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)


bug('c01-case-restore', 'C01',
    [(FC, '        self.suppress_mul_assign = old;\n        Ok(Node::new_case(', '        Ok(Node::new_case(')],
    "same 'f(case a when 1 then 2 end, x = 3, 4)' 'f(case a when 1 then 2 end, (x = 3), 4)'",
    'a case expression as an argument or element, followed by an assignment in a later argument',
    'after a case expression inside an argument list, a comma after an assigned value is taken as a multiple assignment')
bug('c01-while-header-flag', 'C01',
    [(FC, '        let cond = self.parse_expr()?;\n        self.suppress_do_block = old_suppress_do_flag;\n        self.parse_do()?;\n        let body = self.parse_comp_stmt()?;\n        self.expect_reserved(Reserved::End)?;\n        self.loop_stack.pop().unwrap();\n\n        let loc = loc.merge',
      '        let cond = self.parse_expr()?;\n        self.suppress_do_block = false;\n        self.parse_do()?;\n        let body = self.parse_comp_stmt()?;\n        self.expect_reserved(Reserved::End)?;\n        self.loop_stack.pop().unwrap();\n\n        let loc = loc.merge')],
    "accepted 'while (b) || while c do d end || foo do e; end'",
    'a loop inside the condition of another loop, followed by a call in the outer condition',
    'the inner loop lifts the restriction of the outer header, so the do of the outer loop becomes a block of the call')
bug('c01-block-early-return', 'C01',
    [(PAR, '                self.suppress_mul_assign = old_suppress_mul_flag;\n                return Ok(None);', '                return Ok(None);')],
    "same '[g(1), x = 2, 3]' '[g(1), (x = 2), 3]'",
    'a parenthesized call without block as an element, followed by an assignment element',
    'after a call without a block the comma after an assigned value is taken as a multiple assignment')

bug('c03-break-splat', 'C03',
    [(FC, 'if args.len() == 1 && !matches!(args[0].kind, NodeKind::Splat(..)) {', 'if args.len() == 1 {')],
    "has 'while a do break *b end' 'Break({Array'",
    'break/next/return with a single splat argument',
    'the value of break *b is a bare splat instead of an array')
bug('c03-case-nested-else', 'C03',
    [(FC, '            let body = self.parse_comp_stmt()?;\n            when_.push(CaseBranch::new(arg, body));',
      '            let body = self.parse_comp_stmt()?;\n            if self.peek_no_term()?.kind == TokenKind::Reserved(Reserved::When) && when_.len() == 2 {\n                continue;\n            }\n            when_.push(CaseBranch::new(arg, body));')],
    "has 'case x\\nwhen 1 then 2\\nwhen 3 then 4\\nwhen 5 then 6\\nwhen 7 then 8\\nend' 'Integer(5)'",
    'a case with four branches', 'the third of four branches is dropped from the tree')
bug('c03-unless-else-term', 'C03',
    [(FC, '        let then_ = self.parse_comp_stmt()?;\n        let else_ = if self.consume_reserved(Reserved::Else)? {\n            self.parse_comp_stmt()?\n        } else {\n            Node::new_comp_stmt(vec![], self.loc())\n        };\n        self.expect_reserved(Reserved::End)?;\n        Ok(Node::new_if(cond, else_, then_, loc))',
      '        let then_ = self.parse_comp_stmt()?;\n        let else_ = if self.consume_reserved(Reserved::Else)? {\n            self.parse_comp_stmt()?\n        } else {\n            Node::new_comp_stmt(vec![], self.loc())\n        };\n        self.expect_reserved(Reserved::End)?;\n        if matches!(&else_.kind, NodeKind::CompStmt(v) if v.is_empty()) {\n            let cond = Node::new_unop(UnOp::Not, cond, loc);\n            return Ok(Node::new_if(cond, else_, then_, loc));\n        }\n        Ok(Node::new_if(cond, else_, then_, loc))')],
    "hasnt 'unless a; b; end' 'Not'",
    'an unless with an empty or absent else branch', 'the condition of such an unless is negated twice')
bug('c03-begin-else-without-rescue', 'C03',
    [(PAR if False else EXP, '            Some(self.parse_comp_stmt()?)\n        } else {\n            None\n        };\n        let ensure =',
      '            let stmts = self.parse_comp_stmt()?;\n            if rescue.len() > 1 { None } else { Some(stmts) }\n        } else {\n            None\n        };\n        let ensure =')],
    "has 'begin\\na\\nrescue A\\nb\\nrescue B\\nc\\nelse\\nddd\\nend' 'ddd'",
    'begin with two rescue clauses and an else clause', 'the else clause disappears from the tree')

bug('c04-class-toplevel', 'C04',
    [(DEF, '                        parent_name,\n                        toplevel,\n                        parent,\n                        prefix,\n                        prim.loc,',
      '                        parent_name,\n                        toplevel && prefix.is_empty(),\n                        parent,\n                        prefix,\n                        prim.loc,')],
    "has 'class ::A::B::C; end' 'Const{toplevel:true'",
    'a class path starting with :: with at least three names', 'the base of the class is looked up relatively instead of from the top level')
bug('c04-rest-twice', 'C04',
    [(PAR, 'if state >= Kind::Rest {', 'if state > Kind::Rest {')],
    "rejected 'def f(*a, *b); end'",
    'a parameter list with two adjacent rest parameters', 'two rest parameters are accepted')
bug('c04-kw-after-kwrest', 'C04',
    [(PAR, '                    if state == Kind::KWRest {', '                    if state == Kind::KWRest && default.is_some() {')],
    "rejected 'def f(**k, a:, b: 1); end'; rejected 'def f(**k, a:); end'",
    'a required keyword parameter after the keyword rest parameter', 'it is accepted')
bug('c04-lambda-post', 'C04',
    [(PAR, 'let default = self.parse_param_default(terminator)?;\n                    loc = loc.merge(self.prev_loc());\n                    match state {\n                        Kind::Required => state = Kind::Optional,\n                        Kind::Optional => {}',
      'let default = self.parse_param_default(terminator)?;\n                    loc = loc.merge(self.prev_loc());\n                    match state {\n                        Kind::Required => state = Kind::Optional,\n                        Kind::Optional | Kind::PostReq => {}')],
    "rejected 'def f(a = 1, b, c = 2); end'; accepted 'def f(a = 1, b); end'",
    'an optional parameter after a post-required one', 'it is accepted')

bug('c05-bitand-rhs', 'C05',
    [(EXP, 'lhs = Node::new_binop(BinOp::BitAnd, lhs, self.parse_arg_shift()?);', 'lhs = Node::new_binop(BinOp::BitAnd, lhs, self.parse_arg_add()?);')],
    "same 'a & b << c' 'a & (b << c)'",
    'a shift as right operand of &', 'a & b << c groups as (a & b) << c')
bug('c05-unmatch-swap', 'C05',
    [(EXP, '            let loc = lhs.loc().merge(rhs.loc());\n            let node = Node::new_binop(BinOp::Match, lhs, rhs);', '            let loc = lhs.loc().merge(rhs.loc());\n            let node = Node::new_binop(BinOp::Match, rhs, lhs);')],
    "has 'aa !~ bb' 'BinOp(Match,{Ident(\"aa\")},{Ident(\"bb\")})'",
    'the operator !~', 'its operands are exchanged')
bug('c05-eq-chain', 'C05',
    [(EXP, '            Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))', '            let node = Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs);\n            if self.consume_punct_no_term(Punct::Eq)? {\n                let rhs = self.parse_arg_comp()?;\n                return Ok(Node::new_binop(BinOp::Cmp(CmpKind::Eq), node, rhs));\n            }\n            Ok(node)')],
    "rejected 'a === b == c'; accepted 'a === b'",
    'an equality operator after ===', 'the non-associative operators are accepted in a chain')

bug('c06-pair-swap', 'C06',
    [(EXP, '                            kvp.push((key, value));', '                            kvp.insert(kvp.len() - 1, (key, value));')],
    "has 'f(1 => 2, 3 => 4)' '[({Integer(1)},{Integer(2)}),({Integer(3)},{Integer(4)})]'",
    'two or more => pairs in an argument list', 'the pairs are evaluated in another order')
bug('c06-second-splat', 'C06',
    [(EXP, 'let mut splat_flag = matches!(first_lhs.kind, NodeKind::Splat(_));', 'let mut splat_flag = false;')],
    "rejected '*a, *b = 1, 2'",
    'a multiple assignment whose first target is a splat, with a second splat', 'it is accepted')
bug('c06-block-arg-comma', 'C06',
    [(EXP, '                if arglist.block.is_some() {\n                    return Err(error_unexpected(loc, "unexpected \',\'."));\n                };',
      '                if arglist.block.is_some() && arglist.args.is_empty() {\n                    return Err(error_unexpected(loc, "unexpected \',\'."));\n                };')],
    "rejected 'f(1, &b, 2)'; rejected 'f(&b, 2)'",
    'a positional argument before and after a block argument', 'arguments after the block argument are accepted')

bug('c07-toplevel-const', 'C07',
    [(EXP, '                    let name = self.expect_const()?;\n                    Ok(Node::new_const(name, true, None, vec![], loc))', '                    let name = self.expect_const()?;\n                    Ok(Node::new_const(name, !self.is_method_context(), None, vec![], loc))')],
    "has 'def f; ::A; end' 'toplevel:true'",
    '::Const inside a method body', 'it is looked up relatively')

bug('c02-for-counts', 'C02',
    [(PAR, '            match c.kind {\n                ScopeKind::Block => outer += 1,\n                ScopeKind::For => {}\n', '            match c.kind {\n                ScopeKind::Block => outer += 1,\n                ScopeKind::For if outer > 0 => outer += 1,\n                ScopeKind::For => {}\n')],
    "has 'v = 1; for i in [1] do f { v } end' 'LocalVar(1,\"v\")'",
    'a block inside a for loop that uses a variable from outside the loop', 'the loop is counted as a block in the depth of the variable')
bug('c02-kwrest-duplicate', 'C02',
    [('src/lvar_collector.rs', '        let lvar = self.insert_new(val)?;\n        self.kwrest = Some(lvar);\n        Some(lvar)', '        let lvar = match self.kwrest {\n            None => self.insert(&val),\n            Some(_) => self.insert_new(val)?,\n        };\n        self.kwrest = Some(lvar);\n        Some(lvar)')],
    "rejected 'def f(a, **a); end'",
    'a keyword rest parameter with the name of an earlier parameter', 'the duplicate parameter is accepted')
bug('c02-table-before-body', 'C02',
    [(PAR, '        let body = if do_flag {\n            self.parse_begin()?\n        } else {\n            let body = self.parse_comp_stmt()?;\n            self.expect_punct(Punct::RBrace)?;\n            body\n        };\n\n        self.loop_stack.pop().unwrap();\n        let lvar = self.scope.pop().unwrap().lvar;\n        let loc = loc.merge',
      '        let (body, lvar) = if do_flag {\n            let body = self.parse_begin()?;\n            (body, self.scope.pop().unwrap().lvar)\n        } else {\n            let lvar = self.scope_mut().lvar.clone();\n            let body = self.parse_comp_stmt()?;\n            self.expect_punct(Punct::RBrace)?;\n            self.scope.pop().unwrap();\n            (body, lvar)\n        };\n\n        self.loop_stack.pop().unwrap();\n        let loc = loc.merge')],
    "has 'f { |a| vvv = 1 }' 'table:LvarTable([\"a\",\"vvv\"])'",
    'a brace block that defines a local variable', 'the table recorded with the block lacks the variables of its body')
bug('c02-singleton-open', 'C02',
    [(DEF, '        let singleton = self.parse_expr()?;\n        let loc = loc.merge(self.prev_loc());\n        self.consume_term()?;\n\n        self.scope.push(LvarScope::new_class(None));', '        let singleton = self.parse_expr()?;\n        let loc = loc.merge(self.prev_loc());\n        self.consume_term()?;\n\n        self.scope.push(LvarScope::new_block(None));')],
    "hasnt 'vv = 1; class << self; vv; end' 'LocalVar(1,\"vv\")'",
    'a singleton class body that uses a name which is a local variable outside', 'outer variables are visible in the body of a singleton class')

bug('c08-stray-end', 'C08',
    [(PAR, '            if tok.is_eof() {\n                let result', '            if tok.is_eof() || tok.kind == TokenKind::Reserved(Reserved::End) {\n                let result')],
    "rejected 'x = 1 end'",
    'a program with one `end` too many', 'the parse succeeds and the text after the superfluous end is ignored')
bug('c08-peek-reuse', 'C08',
    [(LEX, '        if let Some(tok) = &self.buf {\n            return Ok(tok.clone());\n        };', '        if let Some(tok) = self.buf.as_ref().or(self\n            .buf_skip_lt\n            .as_ref()\n            .filter(|tok| tok.kind == TokenKind::Punct(Punct::Minus)))\n        {\n            return Ok(tok.clone());\n        };')],
    "same '1\\n-2' '1\\n(-2)'",
    'a line that begins with a minus sign after a line whose end was looked over', 'the token looked at across the line end is taken as the next token of the line')
bug('c08-rescue-then', 'C08',
    [(EXP, '                self.parse_then()?;\n            };\n            let rescue_body', '                let then = self.parse_then();\n                if rescue.is_empty() {\n                    then?;\n                }\n            };\n            let rescue_body')],
    "rejected 'begin; a; rescue A; b; rescue C => @e 5; c; end'",
    'a second rescue clause followed by something else than `then` or a line end', 'the error is dropped and the offending token is skipped')

bug('c10-float-range', 'C10',
    [(LEX, 'self.peek() == Some(\'.\') {\n                match self.peek2() {\n                    Some(ch) if ch.is_ascii() && ch.is_numeric() => {',
      'self.peek() == Some(\'.\') {\n                match self.peek2() {\n                    Some(ch) if ch.is_ascii() && (ch.is_numeric() || ch == \'_\') => {')],
    "same '1._foo' '1 ._foo'",
    'a number, a dot and a name that begins with an underscore', 'the method call on a number becomes a float literal')
bug('c10-exp-plus', 'C10',
    [(LEX, "            if !self.consume('+') && self.consume('-') {\n                s.push('-');\n            }",
      "            if !self.consume('+') && self.consume('-') {\n                s.push('-');\n            } else {\n                self.consume('_');\n            }")],
    "rejected '1e_5'",
    'an exponent beginning with an underscore', 'a malformed number is accepted')
bug('c10-numbered-param', 'C10',
    [(LEX, 'if ch1.is_ascii_digit() && iter.next().is_none() {', 'if ch1.is_ascii_digit() && !iter.any(|c| c.is_ascii_digit()) {')],
    "hasnt '_1a = 5; _1a' 'Numbered'\nsame '_1a = 5; _1a' '_1a = 5; (_1a)'\naccepted '_1a = 5'",
    'an identifier that begins with an underscore and one digit', 'it becomes a numbered parameter')
bug('c10-hex-i64', 'C10',
    [(LEX, "        while self.consume_hex().is_some() || self.consume('_') {}\n\n        let s = &self.code[start_pos..self.pos];\n        match BigInt::parse_bytes(s.as_bytes(), 16) {\n            Some(b) => match b.to_i64() {\n                Some(i) => Ok(self.new_numlit(i)),",
      "        while self.consume_hex().is_some() || self.consume('_') {}\n\n        let s = &self.code[start_pos..self.pos];\n        match BigInt::parse_bytes(s.as_bytes(), 16) {\n            Some(b) => match b.to_u64() {\n                Some(i) => Ok(self.new_numlit(i as i64)),")],
    "has '0xffffffffffffffff' 'Bignum'",
    'a hexadecimal number of 64 bits', 'it becomes a negative machine integer')
bug('c10-cont-line', 'C10',
    [(LEX, "        if self.peek2() == Some('\\n') && self.peek() == Some('\\\\') {\n            self.pos += 2;",
      "        if self.peek2() == Some('\\n') && self.peek() == Some('\\\\') {\n            self.pos += 2;\n            self.consume_newline();")],
    "same 'a 1 \\\\n\\nb' 'a 1; b'\nsame 'a \\\\n\\n[1]' 'a; [1]'",
    'a continued line followed by an empty line', 'the line goes on after the empty line')
bug('c10-shr-assign', 'C10',
    [(LEX, "                        } else if self.consume('>') {\n                            if self.consume('=') {\n                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Shr)));",
      "                        } else if self.consume('>') {\n                            if self.peek2() != Some('~') && self.consume('=') {\n                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Shr)));")],
    "same 'a = 1; a >>=~1' 'a = 1; a >>= ~1'",
    'the operator >>= followed by ~', 'it is divided into >> and =~ instead of >>= and ~')
bug('c10-gvar-word', 'C10',
    [(LEX, 'if tok == "$LOAD_PATH" {', 'if tok.starts_with("$LOAD_PATH") {')],
    "hasnt '$LOAD_PATHS' 'Special'",
    'a global variable whose name begins with $LOAD_PATH', 'it becomes the special variable')
bug('c10-ident-question-word', 'C10',
    [(LEX, "        let tok = self.current_slice();\n        if let Some(reserved) = check_reserved(tok) {",
      "        let tok = self.current_slice();\n        if let Some(reserved) = check_reserved(tok.trim_end_matches('?')) {")],
    "accepted 'end?'",
    'a method named like a reserved word and a question mark', 'it becomes the reserved word')
bug('c10-heredoc-comment', 'C10',
    [(LEX, "                '\\n' => {\n                    s.push('\\n');\n                    self.skip_heredocument();\n                }\n                c => s.push(c),",
      "                '\\n' => s.push('\\n'),\n                c => s.push(c),")] if False else
    [(LEX, '            heredoc_end = end + 1;', '            heredoc_end = self.pos.min(end + 1);')] if False else
    [(LEX, '        if self.heredoc_pos > self.pos {\n            self.pos = self.heredoc_pos;\n        }\n        let heredoc_start',
      '        let heredoc_start')],
    "has '[<<A, <<B]\\naaa\\nA\\nbbb\\nB\\n' 'bbb'\nhasnt '[<<A, <<B]\\naaa\\nA\\nbbb\\nB\\n' 'A\\nb'",
    'two here documents that begin in one line', 'the second one contains the first one')

bug('c11-escape-e', 'C11',
    [(LEX, "            'e' => '\\x1b',", "            'e' | 'E' => '\\x1b',")],
    "has '\"\\E\"' '\"E\"'",
    'the escape sequence of a capital E', 'another character is put into the string')
bug('c11-hex-upper', 'C11',
    [(LEX, "ch @ 'A'..='F' => ch as u32 - 'A' as u32 + 10,", "ch @ 'A'..='F' => ch as u32 - 'A' as u32 + 11,")],
    "same '\"\\x4A\"' '\"J\"'",
    'capital hexadecimal digits in an escape sequence', 'the character is off by one')
bug('c11-nested-level', 'C11',
    [(LEX, '                c if c == term => {\n                    if level == 0 {\n                        return Ok(s);', '                c if c == term => {\n                    if level <= 1 && open != Some(\'<\') || level == 0 {\n                        return Ok(s);')] if False else
    [(LEX, "                    if !escape_backslash && (c == term || open == Some(c)) {\n                        s.push(c);",
      "                    if !escape_backslash && (c == term || open == Some(c)) {\n                        if open == Some(c) {\n                            level += 1;\n                        }\n                        s.push(c);")] if False else
    [(LEX, "            '<' => (Some('<'), '>'),", "            '<' => (None, '>'),")],
    "has '%q<a<b>c>' 'a<b>c'",
    'nested angle brackets in a percent literal', 'the literal ends at the inner closing bracket')
bug('c11-octal-two', 'C11',
    [(LEX, "    fn consume_tri_octal(&mut self, first_ch: char) -> Option<u8> {\n        let mut o = first_ch as u8 - b'0';\n        for _ in 0..2 {",
      "    fn consume_tri_octal(&mut self, first_ch: char) -> Option<u8> {\n        let mut o = first_ch as u8 - b'0';\n        for _ in 0..if o > 3 { 1 } else { 2 } {")],
    "same '\"\\4010\"' '\"\\x010\"'",
    'an octal escape sequence of three digits above 0o377', 'only two of its digits are read')
bug('c11-unicode-length', 'C11',
    [(LEX, '                if i == 6 {\n                    return Err', '                if i == 8 {\n                    return Err')],
    "rejected '\"\\u{0000041}\"'",
    'a \\u{} escape with seven digits', 'a malformed escape sequence is accepted')
bug('c11-regexp-s', 'C11',
    [(LEX, '\'s\' => body += "[[:space:]]",', '\'s\' => body += if char_class == 0 { "[[:space:]]" } else { "[:space:]" },')] if False else
    [(LEX, "                // match \".\" for newline\n                s.push('s');", "                // match \".\" for newline\n                if !free_format {\n                    s.push('s');\n                }")],
    "has 'a = /b/xm' '\"ms\"'",
    'a regexp with the option x before the option m', 'the option m is lost')
bug('c11-regexp-bell', 'C11',
    [(LEX, "'b' => body += if char_class == 0 { \"\\\\b\" } else { \"\\\\x08\" },", "'b' => body += if char_class <= 1 && !body.ends_with('[') { \"\\\\b\" } else { \"\\\\x08\" },")],
    "has 'a = /[x\\b]/' 'x08'",
    'a backspace inside of a character class, not at its beginning', 'it becomes a word boundary')
bug('c11-hash-brace', 'C11',
    [(LEX, "                    // string interpolation\n                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {", "                    // string interpolation\n                    Some(ch) if ch == '{' || ch == '$' || (ch == '@' && self.peek2() != Some('@')) => {")],
    "same '\"a#@@b\"' '\"a#{@@b}\"'",
    'a class variable in a string without braces', 'it is not interpolated')
bug('c11-single-escape', 'C11',
    [(LEX, "                    } else if c == '\\\\' {\n                        s.push('\\\\');\n                        if escape_backslash {\n                            s.push('\\\\');\n                        }",
      "                    } else if c == '\\\\' {\n                        s.push('\\\\');\n                        if escape_backslash || term != '\\'' {\n                            s.push('\\\\');\n                        }")],
    "same '%q(a\\\\b)' \"'a\\\\b'\"",
    'an escaped backslash in %q()', 'the backslash is doubled')
bug('c11-command-eof', 'C11',
    [(LEX, "                    if term.is_none() {\n                        return Ok(InterpolateState::Finished(s));",
      "                    if term.is_none() || open.is_some() && level == 0 {\n                        return Ok(InterpolateState::Finished(s));")],
    "rejected '%Q(abc'",
    'a percent literal that is not terminated', 'an unterminated literal is accepted')
bug('c11-x-single', 'C11',
    [(LEX, "                    buf.push_char(char::from_u32(c).unwrap());\n                }\n                return Ok(());",
      "                    buf.push_char(char::from_u32(c).unwrap());\n                }\n                if c2.is_none() {\n                    self.consume('_');\n                }\n                return Ok(());")],
    "same '\"\\x9_a\"' '\"\\t_a\"'",
    'a hexadecimal escape with one digit before an underscore', 'the underscore is lost')
bug('c11-inter-level', 'C11',
    [(LEX, "                    if level == 0 {\n                        return Ok(InterpolateState::Finished(s));\n                    } else {\n                        s.push_char(c);\n                        level -= 1;",
      "                    if level == 0 {\n                        return Ok(InterpolateState::Finished(s));\n                    } else {\n                        s.push_char(c);\n                        level = level.wrapping_sub(1).min(1);")],
    "same '%Q((((a))b))' \"'(((a))b)'\"",
    'three levels of nested brackets', 'the literal ends too early')

bug('c09-comment-nul', 'C09',
    [(LEX, "                Some('\\n') | None => return,\n                Some(ch) => self.pos += ch.len_utf8(),", "                Some('\\n') | None => return,\n                Some(ch) => self.pos += if ch.is_ascii_control() && ch != '\\t' { 0 } else { ch.len_utf8() },")],
    "accepted \"1 # a$(printf '\\r')b\"",
    'a control character in a comment', 'the parser loops forever')
bug('c09-percent-escape', 'C09',
    [(LEX, "                    // continuation line\n                    if self.consume_newline() {\n                        continue;\n                    };\n                    self.read_escaped_char(&mut s)?;",
      "                    // continuation line\n                    if self.consume_newline() {\n                        continue;\n                    };\n                    if open.is_some() && self.peek() == open {\n                        self.pos -= 1;\n                        continue;\n                    }\n                    self.read_escaped_char(&mut s)?;")],
    "accepted '%Q(a\\(b)'",
    'an escaped opening bracket in a percent literal', 'the parser loops forever')
bug('c09-heredoc-eof', 'C09',
    [(LEX, "            if next.is_err() {\n", "            if next.is_err() && end > start {\n")],
    "rejected 'a = <<A\nb\n'",
    'a here document that is not terminated, in a text that ends with a newline', 'the parser loops forever')
bug('c09-regexp-option', 'C09',
    [(LEX, "            } else if self.consume('n') {", "            } else if if free_format { self.peek() == Some('n') } else { self.consume('n') } {")],
    "accepted 'a = /b/xn'",
    'a regexp with the option x before the option n', 'the parser loops forever')
bug('c09-class-path', 'C09',
    [(DEF, "        loop {\n            node = if self.consume_punct(Punct::Dot)? {", "        loop {\n            if self.peek_no_term()?.kind == TokenKind::Punct(Punct::SafeNav) {\n                continue;\n            }\n            node = if self.consume_punct(Punct::Dot)? {")],
    "rejected 'class A&.b; end'",
    'a class path with &.', 'the parser loops forever')
bug('c09-hash-key-twice', 'C09',
    [(LIT, "                None => self.parse_arg()?,\n            };\n            if !symbol_flag {", "                None => {\n                    let save = self.save_state();\n                    self.parse_arg()?;\n                    self.restore_state(save);\n                    self.parse_arg()?\n                }\n            };\n            if !symbol_flag {")],
    'n=30; s=1; for i in $(seq $n); do s="{$s=>1}"; done; accepted "a = $s"',
    'deeply nested hash keys', 'the work doubles with each level of nesting')
bug('c09-args-comma', 'C09',
    [(EXP, "                            if !self.consume_punct(Punct::Comma)? {\n                                break;\n                            }\n                        }\n                    }", "                            if !self.consume_punct(Punct::Comma)? {\n                                break;\n                            }\n                            while kvp.len() > 2 && self.peek()?.kind == TokenKind::Punct(Punct::Comma) {\n                                self.peek_no_term()?;\n                            }\n                        }\n                    }")],
    "rejected 'f(1=>2, 3=>4, 5=>6,, 7=>8)'",
    'two commas after the third pair of an argument list', 'the parser loops forever')

bug('c12-punct-end', 'C12',
    [(LEX, "        Annot::new(TokenKind::Punct(punc), self.cur_loc())", "        let loc = match punc {\n            Punct::Shl => Loc(self.token_start_pos, self.token_start_pos),\n            _ => self.cur_loc(),\n        };\n        Annot::new(TokenKind::Punct(punc), loc)")],
    "has 'f << 2' 'BinOp(Shl'",
    'a << with white space on both sides after a name that is not a variable',
    'the location of << ends with its first character, so the white space after it is not seen and it begins a here document')
bug('c12-space-tab', 'C12',
    [(LEX, "        match self.peek() {\n            Some(ch) => ch.is_ascii_whitespace(),", "        match self.peek() {\n            Some(ch) => ch == ' ' || ch == '\\n',")],
    "tab=$'f\\t-1'; hasnt \"$tab\" 'BinOp'",
    'a tab between a method name and its argument', 'the tab is not white space, and a command call becomes an operator')
bug('c12-after-tab', 'C12',
    [(LEX, "            Some(ch) => ch.is_ascii_whitespace(),\n            _ => false,\n        }\n    }\n\n    /// Get token as a regular", "            Some(ch) => matches!(ch, ' ' | '\\n' | '\\r'),\n            _ => false,\n        }\n    }\n\n    /// Get token as a regular")],
    "tab=$'f -\\t1'; has \"$tab\" 'BinOp'",
    'an operator followed by a tab', 'the tab after the operator is not white space, and the operator becomes a unary one')

bug('c13-line-cache', 'C13',
    [(LEX, "        self.code[0..=pos].chars().filter(|ch| *ch == '\\n').count() + 1", "        // no need to count the lines before the last position again\n        static LAST: std::sync::Mutex<(usize, usize)> = std::sync::Mutex::new((0, 0));\n        let mut last = LAST.lock().unwrap();\n        if last.0 > pos {\n            *last = (0, 0);\n        }\n        let n = last.1 + self.code[last.0..pos].chars().filter(|ch| *ch == '\\n').count();\n        *last = (pos, n);\n        n + 1")],
    "a=$(p 'a = 1; __LINE__' | tail -1); b=$(p '\\n\\n__LINE__' 'a = 1; __LINE__' | tail -1); [ \"$a\" = \"$b\" ] || { echo \"FAIL $a $b\"; bad=1; }",
    'a program with __LINE__ parsed after another one with __LINE__ at a smaller position', 'the lines of the earlier program are counted')
bug('c13-file-path', 'C13',
    [(EXP, "                        let file = self.path.to_string_lossy().to_string();", "                        let path = self.path.canonicalize().unwrap_or_else(|_| self.path.to_path_buf());\n                        let file = path.to_string_lossy().to_string();")],
    "cd \"$tmp\"; touch p.rb; has '__FILE__' '\"p.rb\"'",
    'a program with __FILE__ whose path exists relative to the current directory', 'the tree depends on the file system and the current directory')

bug('c14-alias-variable', 'C14',
    [('src/parser/define.rs', "        } else if let TokenKind::GlobalVar(_) = self.peek_no_term()?.kind {\n            let tok = self.get()?;", "        } else if let TokenKind::GlobalVar(_) | TokenKind::SpecialVar(_) = self.peek_no_term()?.kind {\n            // $~, $1 and the like are read as tokens of their own\n            let tok = self.get()?;")],
    "hasnt 'alias $new $1' EXIT; hasnt 'alias $1 $old' EXIT; hasnt 'alias $new $old' EXIT",
    'an alias of a numbered or special global variable', 'unreachable!() is reached in the names of an alias')
bug('c14-escape-digits', 'C14',
    [(LEX, "                if i == 6 {\n                    return Err(Self::error_parse(\n                        \"Invalid Unicode escape sequence; maximum length is 6 digits.\",\n                        self.pos,\n                    ));\n                }\n                u = u * 16 + h;\n                i += 1;\n            }\n", "                u = u * 16 + h;\n                i += 1;\n            }\n            if i > 6 {\n                return Err(Self::error_parse(\n                    \"Invalid Unicode escape sequence; maximum length is 6 digits.\",\n                    self.pos,\n                ));\n            }\n")],
    "hasnt '\"\\u{fffffffff}\"' EXIT; hasnt '\"\\u{41}\"' EXIT",
    'a code point of nine or more hexadecimal digits in braces', 'the number overflows before its length is checked')
bug('c14-percent-kind', 'C14',
    [('src/parser/literals.rs', "                _ => Err(error_unexpected(loc, \"Unsupported % notation.\")),", "                // the tokenizer reads no other kinds\n                _ => unreachable!(\"{}\", kind),")],
    "hasnt '%s(a)' EXIT; hasnt '%I(a)' EXIT; hasnt '%w(a)' EXIT",
    'a percent literal of a kind that is read but not supported', 'unreachable!() is reached for such kinds')
bug('c14-word-end', 'C14',
    [(LEX, "    fn consume_ident(&mut self) -> Range<usize> {\n        let start = self.pos;\n        loop {\n            match self.peek() {\n                Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii() => {\n                    self.get().unwrap()\n                }\n                _ => break,\n            };", "    fn consume_ident(&mut self) -> Range<usize> {\n        let start = self.pos;\n        loop {\n            match self.peek() {\n                Some('_') => {\n                    // an underscore joins two parts of a name\n                    self.get().unwrap();\n                    match self.peek() {\n                        Some(ch) if !ch.is_ascii_alphanumeric() && ch.is_ascii() => break,\n                        _ => self.get().unwrap(),\n                    }\n                }\n                Some(ch) if ch.is_ascii_alphanumeric() || !ch.is_ascii() => {\n                    self.get().unwrap()\n                }\n                _ => break,\n            };")],
    "hasnt 'a_' EXIT; hasnt '@b_' EXIT; hasnt 'a_b' EXIT; hasnt 'a_ = 1' EXIT",
    'a name that ends with an underscore right at the end of the text', 'the end of the text is unwrapped')
bug('c14-surrogate', 'C14',
    [(LEX, "        if let Some(u) = char::from_u32(u) {\n            s.push_char(u);\n            Ok(())\n        } else {\n            Err(Self::error_parse(\n                \"Invalid Unicode escape sequence\",\n                self.pos,\n            ))\n        }", "        if u > 0x10ffff {\n            return Err(Self::error_parse(\n                \"Invalid Unicode escape sequence\",\n                self.pos,\n            ));\n        }\n        s.push_char(char::from_u32(u).unwrap());\n        Ok(())")],
    "hasnt '\"\\ud800\"' EXIT; hasnt '\"\\u{dfff}\"' EXIT; hasnt '\"\\u{1f600}\"' EXIT",
    'an escape with the number of a surrogate', 'the conversion to a character is unwrapped')

bug('c15-get-end', 'C15',
    [(PAR, "            if tok.is_eof() {\n                return Err(error_eof(tok.loc()));\n            }\n            if !tok.is_line_term() {\n                self.prev_loc = tok.loc;", "            if !tok.is_line_term() {\n                self.prev_loc = tok.loc;")],
    "has 'foo(1' EOF; has 'class A' EOF; has 'def f(a,' EOF; has '1 +' EOF",
    'a program that ends before a closing parenthesis', 'the end is rejected like a wrong token')
bug('c15-hex-early', 'C15',
    [(LEX, "                _ => return Err(self.error_unexpected(self.pos)),\n            },\n            _ => return Err(Self::error_eof(self.pos)),\n        };\n        self.pos += 1;", "                _ => return Err(Self::error_eof(self.pos)),\n            },\n            _ => return Err(Self::error_eof(self.pos)),\n        };\n        self.pos += 1;")],
    "hasnt '\"\\u00g0\"' EOF; rejected '\"\\u00g0\"'; has '\"\\u00' EOF",
    'a Unicode escape with a wrong digit', 'the program counts as unfinished although no continuation is accepted')
bug('c15-heredoc-end', 'C15',
    [(LEX, "                return Err(Self::error_eof(self.pos));\n            };\n            heredoc_end = end + 1;", "                return Err(Self::error_parse(\n                    \"can't find the end of the here document\",\n                    self.pos,\n                ));\n            };\n            heredoc_end = end + 1;")],
    "has '<<A\\nfoo' EOF; has '<<~A\\n foo\\n' EOF",
    'a here document whose end is not there yet', 'it is rejected instead of being unfinished')
bug('c15-percent-words', 'C15',
    [(LEX, "        let mut s = \"\".to_string();\n        let mut level = 0;\n        loop {\n            match self.get()? {\n                c if open", "        let mut s = \"\".to_string();\n        let mut level = 0;\n        loop {\n            if level > 0 && self.peek().is_none() {\n                return Err(Self::error_parse(\"unbalanced delimiters\", self.pos));\n            }\n            match self.get()? {\n                c if open")],
    "has '%w(a (b' EOF; has '%w(a b' EOF; has '%q(a (b)' EOF",
    'a percent literal that ends inside nested delimiters', 'it is rejected instead of being unfinished')
bug('c15-class-name', 'C15',
    [(PAR, "    fn expect_const(&mut self) -> Result<String, LexerErr> {\n        match self.get()?.kind {", "    fn expect_const(&mut self) -> Result<String, LexerErr> {\n        // the name has to be on the same line\n        match self.get_no_skip_line_term()?.kind {")],
    "has 'A::' EOF; has 'class A::' EOF; has '::' EOF",
    'a program that ends after ::', 'the end is rejected like a wrong token')
bug('c15-block-param', 'C15',
    [(PAR, "            _ => Err(error_unexpected(self.prev_loc(), \"Expect identifier.\")),", "            _ => {\n                let loc = self.prev_loc();\n                // `|` closes the list before the name is there\n                match self.peek_no_term()? {\n                    tok if tok.is_eof() => Err(error_eof(tok.loc())),\n                    _ => Err(error_unexpected(loc, \"Expect identifier.\")),\n                }\n            }")],
    "rejected 'def f(a, &1'; hasnt 'f { |a, &1' EOF; hasnt 'for 1' EOF; has 'def f(a, &' EOF",
    'a wrong token in place of a name right at the end of the text', 'the program counts as unfinished although no continuation is accepted')
