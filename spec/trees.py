import re
# Syntax trees: the nodes every parsing function builds and returns.
#
#   parse_x<T>      what parse_x returned, called right after the token T (entry: at the start of the function;
#                   parse_y: after parse_y; TERM: after line terminators)
#   tok.Ident.0     the text (payload) of a token
#   #Kind           a node built earlier in the same function
#   argnode:1       the node given as argument
#   [X]* [X]+       a list of X;   _ anything
#   ~ at the start: what may be read and then left out of the tree (nothing else may)
#   + at the start: only part of another node, never the result.   -> : result that is not a node built here

# ---------------------------------------------------------------- statements and control flow
T('parse', '-> ParseResult(parse_comp_stmt<start>, argnode:3.LvarScope.1, _)')
T('parse_comp_stmt', '''
  -> parse_stmt<entry>
  CompStmt([parse_stmt<entry|TERM>]*)''')
T('parse_stmt', '''
  -> parse_expr<entry>
  If(parse_expr<If>, parse_expr<entry> | #If | #While | #Begin, #CompStmt([]))
  If(parse_expr<Unless>, #CompStmt([]), parse_expr<entry> | #If | #While | #Begin)
  While(parse_expr<While>, parse_expr<entry> | #If | #While | #Begin, 1, 1)
  While(parse_expr<Until>, parse_expr<entry> | #If | #While | #Begin, 0, 1)
  Begin(parse_expr<entry> | #If | #While | #Begin, [RescueEntry([], None, parse_expr<Rescue>)], None, None)
  + CompStmt([])''')
T('parse_if', '-> parse_if_then<entry>')
T('parse_if_then', '''
  If(parse_expr<entry>, parse_comp_stmt<Then|TERM>, parse_comp_stmt<Else> | parse_if_then<Elsif> | #CompStmt([]))
  + CompStmt([])''')
T('parse_unless', '''
  If(parse_expr<entry>, parse_comp_stmt<Else> | #CompStmt([]), parse_comp_stmt<Then|TERM>)
  + CompStmt([])''')
T('parse_while(1)', 'While(parse_expr<entry>, parse_comp_stmt<Do|TERM>, 1, 0)')
T('parse_while(0)', 'While(parse_expr<entry>, parse_comp_stmt<Do|TERM>, 0, 0)')
T('parse_for', 'For([(_, tok.Ident.0)]+, parse_expr<In>, BlockInfo([], parse_comp_stmt<Do|TERM>, _, _))')
T('parse_case', '''
  Case(None | Some(parse_expr<entry>), [CaseBranch(parse_mul_assign_rhs(None)<When>, parse_comp_stmt<Then|TERM>)]*,
       parse_comp_stmt<Else> | #CompStmt([]))
  + CompStmt([])''')
T('parse_begin', '''
  Begin(parse_comp_stmt<entry>, [RescueEntry([], None, parse_comp_stmt<TERM>) |
        RescueEntry([] | parse_mul_assign_rhs(None)<Rescue>, None | Some(check_lhs<parse_arg>), parse_comp_stmt<Then|TERM>)]*,
        None | Some(parse_comp_stmt<Else>), None | Some(parse_comp_stmt<Ensure>))''')
T('parse_return', 'Return(parse_break_sub<entry>)')
T('parse_break', 'Break(parse_break_sub<entry>)')
T('parse_next', 'Next(parse_break_sub<entry>)')
T('parse_break_sub', '''
  -> (Nil | elem:parse_mul_assign_rhs(None){!Splat} | #Array(parse_mul_assign_rhs(None)<entry> | []
       | [elem:parse_mul_assign_rhs(None){Splat}], _), _)
  + Array(parse_mul_assign_rhs(None)<entry> | [] | [elem:parse_mul_assign_rhs(None){Splat}], _)''')

# ---------------------------------------------------------------- definitions
BODY = 'BlockInfo(parse_def_params<%s>, parse_begin<parse_def_params>, _, _)'
OPS = {'Plus': '+', 'Minus': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'BitAnd': '&', 'BitOr': '|', 'Shl': '<<', 'Shr': '>>',
       'Eq': '==', 'Ne': '!=', 'TEq': '===', 'Cmp': '<=>', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Match': '=~',
       'RBracket': '[]', 'Assign': '[]='}
T('parse_def', '\n'.join("MethodDef('%s', %s)" % (s, BODY % t) for t, s in OPS.items()) + '''
  MethodDef('+@' | '-@', BlockInfo(parse_def_params<scan:consume>, parse_begin<parse_def_params>, _, _))
  MethodDef(scan:read_method_ext, BlockInfo(parse_def_params<scan:read_method_ext>, parse_begin<parse_def_params>, _, _))
  SingletonMethodDef(#Const(0, None, [], tok.Const.0) | #GlobalVar(tok.GlobalVar.0) | #InstanceVar(tok.InstanceVar.0)
     | #LocalVar(0, tok.Ident.0) | #SelfValue, scan:read_method_name,
     BlockInfo(parse_def_params<scan:read_method_name>, parse_begin<parse_def_params>, _, _))
  + Const(0, None, [], tok.Const.0)
  + GlobalVar(tok.GlobalVar.0)
  + InstanceVar(tok.InstanceVar.0)
  + LocalVar(0, tok.Ident.0)''')
T('parse_def_params', '''
  -> []
  -> parse_formal_params(None)<entry>
  -> parse_formal_params(RParen)<LParen>''')
CONSTS = '\n'.join('Const(%s.Const.0<%s>, %s.Const.1<%s>, %s.Const.2<%s>, tok.Const.0)' % (f, p, f, p, f, p)
                   for f, p in (('parse_primary(1)', 'entry'), ('parse_primary_method(_,0)', 'Dot')))
T('parse_class_def_name', CONSTS + '''
  Const(0, Some(parse_primary(1)<entry>) | Some(parse_primary_method(_,0)<Dot>), [tok.Const.0]*, tok.Const.0)
  -> parse_primary(1)<entry>
  -> parse_primary_method(_,0)<Dot>''')
for m in (0, 1):
    T('parse_class(%d)' % m, '''
  ClassDef(None | Some(parse_class_def_name.Const.1.Some.0<entry>) | Some(#Const), parse_class_def_name.Const.3<entry>, None,
     BlockInfo([], parse_begin<parse_class_def_name|TERM>, _, _), %d)
  + Const(parse_class_def_name.Const.0<entry>, parse_class_def_name.Const.1<entry>, parse_class_def_name.Const.2<entry>, elem)'''
      % m + ('''
  ClassDef(None | Some(parse_class_def_name.Const.1.Some.0<entry>) | Some(#Const), parse_class_def_name.Const.3<entry>,
     Some(parse_expr<Lt>), BlockInfo([], parse_begin<parse_expr|TERM>, _, _), 0)''' if m == 0 else ''))
T('parse_singleton_class', 'SingletonClassDef(parse_expr<entry>, BlockInfo([], parse_begin<parse_expr|TERM>, _, _))')
T('alias_name', '''
  Symbol(scan:read_method_name | tok.GlobalVar.0)
  -> parse_symbol<Colon>''')
T('parse_lambda_literal', '''
  Lambda(BlockInfo([] | parse_formal_params(None)<entry> | parse_formal_params(RParen)<LParen>, parse_comp_stmt<Do|LBrace>, _, _))''')
T('parse_block', '''
  -> None
  -> Some(#Lambda(BlockInfo([], parse_comp_stmt<LBrace|LOr> | parse_begin<Do|LOr>, _, _)))
  -> Some(#Lambda(BlockInfo(parse_formal_params(BitOr)<BitOr>,
     parse_comp_stmt<parse_formal_params(BitOr)> | parse_begin<parse_formal_params(BitOr)>, _, _)))
  + Lambda(BlockInfo([], parse_comp_stmt<LBrace|LOr> | parse_begin<Do|LOr>, _, _))
  + Lambda(BlockInfo(parse_formal_params(BitOr)<BitOr>,
     parse_comp_stmt<parse_formal_params(BitOr)> | parse_begin<parse_formal_params(BitOr)>, _, _))''')
for t in ('BitOr', 'RParen', 'None'):
    value = 'parse_primary(1)' if t == 'BitOr' else 'parse_arg'
    T('parse_formal_params(%s)' % t, '''
  -> [Param(tok.Ident.0) | Optional(tok.Ident.0, %(v)s<Assign>) | Rest(None | Some(tok.Ident.0)) |
      Keyword(tok.Ident.0, None | Some(%(v)s<Colon>)) | KWRest(tok.Ident.0) | Block(tok.Ident.0) | Delegate |
      Destruct([(tok.Ident.0, _)]+)]*
  + Param(tok.Ident.0)
  + Post(tok.Ident.0)
  + Optional(tok.Ident.0, %(v)s<Assign>)
  + Rest(None | Some(tok.Ident.0))
  + Keyword(tok.Ident.0, None | Some(%(v)s<Colon>))
  + KWRest(tok.Ident.0)
  + Block(tok.Ident.0)
  + Destruct([(tok.Ident.0, _)]+)
  + Delegate''' % {'v': value})

# ---------------------------------------------------------------- operators
def binary(fn, sub, ops, left=True, rec=None):
    lhs = '%s<entry>' % sub + (' | #BinOp' if left else '')
    T(fn, '-> %s<entry>\n' % sub + '\n'.join('BinOp(%s, %s, %s<%s>)' % (o, lhs, rec or sub, t) for t, o in ops.items()))


binary('parse_expr', 'parse_not', {'And': 'LAnd', 'Or': 'LOr'})
T('parse_not', '''
  -> parse_arg<entry>
  -> parse_mul_assign<Comma>''')
T('parse_arg', '''
  -> parse_arg_assign<entry>
  Defined(parse_arg<Defined>)''')
ASSIGNS = 'AssignAdd|AssignSub|AssignMul|AssignDiv|AssignRem|AssignShl|AssignShr|AssignBitAnd|AssignBitOr|AssignBitXor|AssignExp'
ASSIGNMENT = '''
  AssignOp(tok, check_lhs<%s>, parse_arg<check_lhs>)
  BinOp(tok, check_lhs<AssignLAnd|AssignLOr>, #MulAssign([check_lhs<AssignLAnd|AssignLOr>], _))
  MulAssign([check_lhs<Assign>], [elem:parse_mul_assign_rhs_if_allowed] | [#Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [], _)])
  + Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [], _)
  + MulAssign([check_lhs<AssignLAnd|AssignLOr>], [parse_arg<check_lhs>] | [#Array])
  + Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [parse_arg<check_lhs>], _)
''' % ASSIGNS
T('parse_arg_assign', '-> parse_arg_ternary<entry>' + ASSIGNMENT)
T('parse_arg_ternary', '''
  -> parse_arg_range<entry>
  If(parse_arg_range<entry>, parse_arg<Question>, parse_arg<Colon>)''')
T('parse_arg_range', '''
  -> parse_arg_logical_or<entry>
  Range(parse_arg_logical_or<entry>, parse_arg_logical_or<Range2>, 0, _)
  Range(parse_arg_logical_or<entry>, parse_arg_logical_or<Range3>, 1, _)''')
binary('parse_arg_logical_or', 'parse_arg_logical_and', {'LOr': 'LOr'})
binary('parse_arg_logical_and', 'parse_arg_eq', {'LAnd': 'LAnd'})
T('parse_arg_eq', '''
  -> parse_arg_comp<entry>
  BinOp(Compare, parse_arg_comp<entry>, parse_arg_comp<Cmp>)
  BinOp(Cmp(Eq), parse_arg_comp<entry>, parse_arg_comp<Eq>)
  BinOp(Cmp(Ne), parse_arg_comp<entry>, parse_arg_comp<Ne>)
  BinOp(Cmp(TEq), parse_arg_comp<entry>, parse_arg_comp<TEq>)
  BinOp(Match, parse_arg_comp<entry>, parse_arg_comp<Match>)
  UnOp(Not, #BinOp(Match, parse_arg_comp<entry>, parse_arg_comp<Unmatch>))
  + BinOp(Match, parse_arg_comp<entry>, parse_arg_comp<Unmatch>)''')
binary('parse_arg_comp', 'parse_arg_bitor', {'Lt': 'Cmp(Lt)', 'Le': 'Cmp(Le)', 'Gt': 'Cmp(Gt)', 'Ge': 'Cmp(Ge)'})
binary('parse_arg_bitor', 'parse_arg_bitand', {'BitOr': 'BitOr', 'BitXor': 'BitXor'})
binary('parse_arg_bitand', 'parse_arg_shift', {'BitAnd': 'BitAnd'})
binary('parse_arg_shift', 'parse_arg_add', {'Shl': 'Shl', 'Shr': 'Shr'})
binary('parse_arg_add', 'parse_arg_mul', {'Plus': 'Add', 'Minus': 'Sub'})
binary('parse_arg_mul', 'parse_unary_minus', {'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem'})
T('parse_unary_minus', '''
  -> parse_exponent<entry>
  UnOp(Neg, parse_unary_minus<Minus> | parse_exponent<Minus>)''' + ASSIGNMENT + '  ~ parse_primary(1)')
binary('parse_exponent', 'parse_unary', {'DMul': 'Exp'}, left=False, rec='parse_exponent')
UNOPS = {'Pos': 'Plus', 'Not': 'Not', 'BitNot': 'BitNot'}
T('parse_unary', '-> parse_method_call<entry>\n' + '\n'.join(
    'UnOp(%s, parse_unary<%s> | #AssignOp | #BinOp | #MulAssign)' % x for x in UNOPS.items()) +
  re.sub(r'(?m)^  (?=[A-Z])', '  + ', ASSIGNMENT))
T('check_lhs', '''
  -> argnode:1
  LocalVar(_, argnode:1.Ident.0)
  Splat(check_lhs<entry>)''')

# ---------------------------------------------------------------- calls and assignments
T('parse_mul_assign_rhs_if_allowed', '''
  -> parse_mul_assign_rhs(None)<entry>
  -> [parse_arg<entry>]''')
for t in ('None', 'RBracket'):
    T('parse_mul_assign_rhs(%s)' % t, '''
  -> [parse_arg<entry|Comma> | #Splat(parse_arg<Mul>)]%s
  + Splat(parse_arg<Mul>)''' % ('+' if t == 'None' else '*'))
for t in ('', '(Splat)'):
    T('parse_mul_assign' + t, '''
  MulAssign([argnode:1 | parse_method_call | ~check_lhs]+, parse_mul_assign_rhs_if_allowed<check_lhs> | [#Array])
  + Array(parse_mul_assign_rhs_if_allowed<check_lhs>, _)''' + ('' if t else '''
  + Splat(parse_method_call<Mul>)'''))
POSTFIX = [('parse_primary(0)', 'entry'), ('parse_primary_method(_,0)', 'Dot|Scope'), ('parse_primary_method(_,1)', 'SafeNav')]
BASE = ' | '.join('%s<%s>' % x for x in POSTFIX)
T('parse_method_call', '\n'.join('-> %s<%s>' % x for x in POSTFIX) + '''
  -> parse_yield<Yield>
  Index(%(b)s | #Const | #Index | #MethodCall, parse_mul_assign_rhs(RBracket)<LBracket>)
  MethodCall(%(b)s | #Const | #Index | #MethodCall, tok.Const.0, parse_arglist_block(RParen)<LParen>, 0)
  Const(0, %(sb)s | Some(#Index) | Some(#MethodCall), [tok.Const.0]*, tok.Const.0)
''' % {'b': BASE, 'sb': ' | '.join('Some(%s<%s>)' % x for x in POSTFIX)} + '\n'.join(
    'Const(%s.Const.0<%s>, %s.Const.1<%s>, %s.Const.2<%s>, tok.Const.0)' % (f, p, f, p, f, p) for f, p in POSTFIX))
for t in ('None', 'RParen'):
    T('parse_arglist(%s)' % t, '''
  -> ArgList([parse_arg<entry|Comma|FatArrow>]*, [(parse_arg<entry|Comma>, parse_arg<Colon>)]*, [parse_arg<DMul>]*,
       None | Some(parse_arg<BitAnd>), 0 | 1, 0)
  -> ArgList([parse_arg<entry|Comma|Mul|FatArrow>]*&Mul, [(parse_arg<entry|Comma>, parse_arg<Colon>)]*, [parse_arg<DMul>]*,
       None | Some(parse_arg<BitAnd>), 0 | 1, 1)
  + Splat(parse_arg<Mul>)
  + Hash([(parse_arg<entry|Comma>, parse_arg<FatArrow>)]*, _)
  ~ parse_arg{Ident|LocalVar}''')
    T('parse_arglist_block(%s)' % t, '''
  -> parse_arglist(%(t)s)<entry>
  -> ArgList(parse_arglist(%(t)s).ArgList.0<entry>, parse_arglist(%(t)s).ArgList.1<entry>, parse_arglist(%(t)s).ArgList.2<entry>,
        Some(parse_block.Some.0<parse_arglist(%(t)s)>), parse_arglist(%(t)s).ArgList.4<entry>, parse_arglist(%(t)s).ArgList.5<entry>)'''
      % {'t': t})
NO_ARGS = 'ArgList([], [], [], None, 0, 0)'
T('parse_command', 'FuncCall(argnode:1, parse_arglist_block(None)<entry>, 0)')
T('parse_function_args', '''
  -> argnode:1
  FuncCall(argnode:1.Ident.0 | argnode:1.Const.3 | argnode:1.LocalVar.1,
    parse_arglist_block(RParen)<LParen> | ArgList([], [], [], Some(parse_block.Some.0<entry>), 0, 0), 0)''')
for s in (0, 1):
    T('parse_primary_method(_,%d)' % s, '''
  MethodCall(argnode:1, 'call', parse_arglist_block(RParen)<LParen>, %(s)d)
  MethodCall(argnode:1 | #FuncCall(argnode:1.Ident.0, %(n)s, 0), scan:read_method_name,
    parse_arglist_block(RParen)<LParen> | parse_arglist_block(None)<scan:read_method_name> | %(n)s |
    ArgList([], [], [], Some(parse_block.Some.0<scan:read_method_name>), 0, 0), %(s)d)
  + FuncCall(argnode:1.Ident.0, %(n)s, 0)''' % {'s': s, 'n': NO_ARGS})
T('parse_super', 'Super(None | Some(parse_arglist_block(None)<entry>) | Some(parse_arglist_block(RParen)<LParen>))')
T('parse_yield', 'Yield(%s | parse_arglist(None)<entry> | parse_arglist(RParen)<LParen>)' % NO_ARGS)

# ---------------------------------------------------------------- literals
T('parse_hash_literal', '''
  Hash([(#Symbol, parse_arg<Colon>) | (parse_arg<entry>, parse_arg<FatArrow>)]*, _)
  + Symbol(tok.Ident.0 | tok.NumberedParam.1 | tok.Const.0 | tok.InstanceVar.0 | tok.StringLit.0.Utf8.0 | ext:from_utf8.Ok.0
    | str:to_str)''')
T('parse_symbol', '''
  Symbol(scan:read_symbol_literal | tok.StringLit.0.Utf8.0 | ext:from_utf8.Ok.0)
  MethodCall(parse_interporated_string_literal<OpenString>, 'to_sym', %s, 0)''' % NO_ARGS)
T('parse_template', '''
  -> ()
  + ClassVar(tok.ClassVar.0)
  + GlobalVar(tok.GlobalVar.0)
  + InstanceVar(tok.InstanceVar.0)
  + SpecialVar(tok.SpecialVar.0)''')
T('parse_string_literal', '''
  -> parse_interporated_string_literal<OpenString>
  String(_)
  Bytes(_)''')
T('parse_interporated_string_literal', '''
  InterporatedString(_)
  + String(_)
  + Bytes(_)''')
T('parse_heredocument', '''
  -> here_command<start>
  -> here_double<start>
  String(_)
  Bytes(_)''')
T('here_double', '''
  -> parse_interporated_string_literal<scan:read_string_literal_double>
  String(_)
  Bytes(_)''')
T('here_command', '''
  Command(parse_interporated_string_literal<scan:read_command_literal> | #String | #Bytes)
  + String(_)
  + Bytes(_)''')
T('parse_percent_notation', '''
  -> parse_interporated_string_literal<scan:get_percent_notation>
  String(_)
  Bytes(_)
  Array(_, _)
  RegExp([#String | #Bytes], scan:check_postfix, _)''')
T('parse_regexp', '''
  RegExp([#String | #Bytes | parse_template]*, scan:get_regexp.Regex.1, _)
  + String(_)
  + Bytes(_)''')
for n in (0, 1):
    T('parse_primary(%d)' % n, '''
  -> parse_mul_assign(Splat)<Comma>
  -> parse_function_args<Ident|NumberedParam|Const>
  -> parse_break<Break>
  -> parse_next<Next>
  -> parse_return<Return>
  -> parse_if<If>
  -> parse_unless<Unless>
  -> parse_while(1)<While>
  -> parse_while(0)<Until>
  -> parse_for<For>
  -> parse_case<Case>
  -> parse_begin<Begin>
  -> parse_def<Def>
  -> parse_class(0)<Class>
  -> parse_class(1)<Module>
  -> parse_singleton_class<Shl>
  -> parse_comp_stmt<LParen>
  -> parse_hash_literal<LBrace>
  -> parse_lambda_literal<Arrow>
  -> parse_heredocument<Shl>
  -> parse_percent_notation<Rem>
  -> parse_regexp<Div>
  -> parse_symbol<Colon>
  -> parse_interporated_string_literal<OpenString>
  -> parse_string_literal<StringLit>
  -> parse_super<Super>
  AliasMethod(alias_name<Alias>, alias_name<alias_name>)
  Array(parse_mul_assign_rhs(RBracket)<LBracket>, _)
  + Array(parse_mul_assign_rhs_if_allowed<check_lhs>, _)
  Bignum(tok.BignumLit.0 | neg:tok.BignumLit.0 | neg:tok.IntegerLit.0)
  Integer(tok.IntegerLit.0 | _)
  Float(tok.FloatLit.0 | neg:tok.FloatLit.0)
  Imaginary(tok.ImaginaryLit.0)
  Bool(0 | 1)
  -> Nil
  -> SelfValue
  -> Redo
  String(_)
  Bytes(_)
  ClassVar(tok.ClassVar.0)
  GlobalVar(tok.GlobalVar.0)
  InstanceVar(tok.InstanceVar.0)
  SpecialVar(tok.SpecialVar.0)
  Ident(tok.Ident.0 | tok.NumberedParam.1)
  + Ident(tok.Const.0)
  LocalVar(_, tok.Ident.0)
  Const(0 | 1, None, [], tok.Const.0)
  Command(parse_interporated_string_literal<OpenCommand> | #String | #Bytes)
  Defined(parse_expr<LParen>)
  MulAssign([check_lhs<Assign>], [elem:parse_mul_assign_rhs_if_allowed] | [#Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [], _)])
  + Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [], _)
  + Splat(parse_method_call<Mul>)
  UnOp(Neg, parse_unary<Minus>)''' + ('\n  -> parse_command<Ident|NumberedParam|Const>' if n == 0 else ''))
