# Reference grammar of the parsing functions.
#
#   Uppercase word      a token (Reserved.If is written If, Punct.LParen LParen, ...) or a macro
#   {A B}               one of several tokens
#   lowercase word      a parsing function, with the constant arguments that matter
#   ~X                  line terminators (newline or ';') may come before X
#   NL                  line terminators
#   ?test=0/1           X is taken only if a test on the characters, or a mode of the parser, has this result
#   !f                  a function of the lexer consumes characters
#   @p                  the parser goes back to p
#   &{..} &!{..}        what follows is chosen by the next token; &~{..} by the next token after line terminators
#
# Unless noted with &, a parsing function is entered (and a function ends) exactly if none of the tokens
# that could be consumed at that place is next.

# ---------------------------------------------------------------- statements and control flow
group('C03')
tokens('BLOCK_END', 'Else Elsif End When Rescue Ensure RParen RBrace RBracket')
tokens('STMT_END', 'BLOCK_END Eof')
macro('TERM', '(NL | NL? Eof)')
R('parse', 'parse_comp_stmt &~{Eof}')
R('parse_comp_stmt', '&~{STMT_END} | &!~{STMT_END} parse_stmt (NL &!{STMT_END} parse_stmt)* '
  '(&!{NL Eof} | NL &{BLOCK_END} | NL? Eof)')
R('parse_stmt', 'parse_expr ({If Unless While Until Rescue} parse_expr)*')
# if COND [then | newline [then]]
macro('THEN', '(Then | NL | NL Then | NL? Eof)')
macro('DO', '(Do | NL | NL? Eof)')
R('parse_if', 'parse_if_then ~End')
R('parse_if_then', 'parse_expr THEN parse_comp_stmt (~Elsif parse_if_then | ~Else parse_comp_stmt)?')
R('parse_unless', 'parse_expr THEN parse_comp_stmt (~Else parse_comp_stmt)? ~End')
R('parse_while(1)', 'parse_expr DO parse_comp_stmt ~End')
R('parse_while(0)', 'parse_expr DO parse_comp_stmt ~End')
R('parse_for', '(~Ident (~Comma ~Ident)* | ~LParen ~Ident (~Comma ~Ident)* (~Comma)? ~RParen) ~In parse_expr '
  'DO parse_comp_stmt ~End')
macro('WHENS', '(~When parse_mul_assign_rhs(None) THEN parse_comp_stmt)')
R('parse_case', '(WHENS | parse_expr WHENS?) WHENS* (~Else parse_comp_stmt)? ~End')
R('parse_begin', 'parse_comp_stmt (~Rescue (TERM | (FatArrow parse_arg check_lhs | '
  'parse_mul_assign_rhs(None) (FatArrow parse_arg check_lhs)?) THEN) '
  'parse_comp_stmt)* (~Else parse_comp_stmt)? (~Ensure parse_comp_stmt)? ~End')
R('parse_return', 'parse_break_sub')
R('parse_break', 'parse_break_sub')
R('parse_next', 'parse_break_sub')
tokens('NO_VALUE', 'If Unless STMT_END')
R('parse_break_sub', '&{NO_VALUE NL} | &!{NO_VALUE NL} parse_mul_assign_rhs(None)')

# ---------------------------------------------------------------- definitions
group('C04')
tokens('OPERATOR', 'Plus Minus Mul Div Rem BitAnd BitOr Shl Shr Eq Ne TEq Cmp Lt Le Gt Ge Match')
tokens('RESERVED', '*Reserved.')
macro('PLAIN', 'parse_def_params parse_begin =>"MethodDef(_, _)"')
DEF = ['(~{OPERATOR} | ~{Plus Minus} !consume | ~LBracket RBracket Assign? | ~{RESERVED Ident Const} !read_method_ext) PLAIN']
for t, node in (('~Ident $self Dot?', 'SelfValue'), ('~Ident {Dot Scope}', 'LocalVar(0, tok.Ident.0)'),
                ('~Const {Dot Scope}', 'Const(0, None, [], tok.Const.0)'), ('~GlobalVar Dot?', 'GlobalVar(tok.GlobalVar.0)'),
                ('~InstanceVar Dot?', 'InstanceVar(tok.InstanceVar.0)')):
    DEF.append('%s !read_method_name parse_def_params parse_begin =>"SingletonMethodDef(%s, _, _)"' % (t, node))
R('parse_def', ' | '.join(DEF))
R('parse_def_params', 'TERM | (LParen parse_formal_params(RParen) | parse_formal_params(None)) TERM?')
R('parse_class_def_name', 'parse_primary(1) (~Dot parse_primary_method(_,0) | Scope ~Const)*')
R('parse_class(0)', 'parse_class_def_name (Lt parse_expr)? TERM? parse_begin')
R('parse_class(1)', 'parse_class_def_name &!{Lt} TERM? parse_begin')
R('parse_singleton_class', 'parse_expr TERM? parse_begin')
R('alias_name', 'Colon parse_symbol | GlobalVar | !read_method_name')
R('parse_lambda_literal', '(~LParen parse_formal_params(RParen) | &!~{LBrace Do LParen} parse_formal_params(None))? '
  '(~LBrace parse_comp_stmt ~RBrace | ~Do parse_comp_stmt ~End)')
R('parse_block', '(LBrace (~BitOr parse_formal_params(BitOr) | ~LOr)? parse_comp_stmt ~RBrace |'
  '?mode:suppress_do_block=0 Do (~BitOr parse_formal_params(BitOr) | ~LOr)? parse_begin)?')


def formal_params(term):
    """Parameters: required, optional, rest, post, keyword, keyword rest, block in this order. A comma may follow
    the last one if there is a closing token."""
    end = {'BitOr': '~BitOr', 'RParen': '~RParen'}.get(term)
    comma = '~Comma' if end else 'Comma'
    value = 'parse_primary(1)' if term == 'BitOr' else 'parse_arg'
    order = ['Req', 'Opt', 'Rest', 'Post', 'Kw', 'KwRest']
    rules = {'End': []}
    destruct = '~LParen ~Ident (~Comma ~Ident)* (~Comma)? ~RParen %ParamKind.Destruct'
    for s in order:
        def to(x):
            return 'After' + x
        r = rules[s] = [(destruct, to(s))]
        if s == 'Req':
            r.append(('~Range3 %ParamKind.Delegate', 'Close'))
            r.append(('~Ident &!{Colon} &!~{Assign} %ParamKind.Param', to('Req')))
        if s in ('Req', 'Opt'):
            r.append(('~Mul (~Ident | &!~{NumberedParam Ident}) %ParamKind.Rest', to('Rest')))
            r.append(('~Ident ~Assign ' + value + ' %ParamKind.Optional', to('Opt')))
        if s in ('Opt', 'Rest', 'Post'):
            r.append(('~Ident &!{Colon} &!~{Assign} %ParamKind.Post', to('Post')))
        if s != 'KwRest':
            nov = '&{NL Comma %s}' % (end or '~').strip('~')
            r.append(('~Ident Colon (%s | &!{NL Comma %s} %s) %%ParamKind.Keyword' % (nov, (end or '~').strip('~'), value), to('Kw')))
            r.append(('~DMul ~Ident %ParamKind.KWRest', to('KwRest')))
        r.append(('~BitAnd ~Ident %ParamKind.Block', 'Close'))
        rules['After' + s] = [(comma, s), ('', 'Close')]
        if end:
            r.append((end, 'End'))
    rules['Close'] = [(end or '', 'End')]
    M('parse_formal_params(%s)' % term, 'Req', rules, ['End'])


for t in ('BitOr', 'RParen', 'None'):
    formal_params(t)

# ---------------------------------------------------------------- operators
group('C05')
R('parse_expr', 'parse_not ({And Or} parse_not)*')
R('parse_not', 'parse_arg (Comma parse_mul_assign)?')
R('parse_arg', '?has_trailing_space=1 ~Defined parse_arg | ?has_trailing_space=0 parse_arg_assign |'
  '?has_trailing_space=1 &!~{Defined} parse_arg_assign')
tokens('ASSIGN_OP', '*Punct.AssignOp')
R('parse_arg_assign', 'parse_arg_ternary (Assign check_lhs parse_mul_assign_rhs_if_allowed | {ASSIGN_OP} check_lhs parse_arg)?')
R('parse_arg_ternary', 'parse_arg_range (Question parse_arg Colon parse_arg)?')
R('parse_arg_range', 'parse_arg_logical_or ({Range2 Range3} parse_arg_logical_or)?')
R('parse_arg_logical_or', 'parse_arg_logical_and (LOr parse_arg_logical_and)*')
R('parse_arg_logical_and', 'parse_arg_eq (LAnd parse_arg_eq)*')
R('parse_arg_eq', 'parse_arg_comp ({Cmp Eq TEq Ne Match Unmatch} parse_arg_comp)?')
R('parse_arg_comp', 'parse_arg_bitor ({Lt Le Gt Ge} parse_arg_bitor)*')
R('parse_arg_bitor', 'parse_arg_bitand ({BitOr BitXor} parse_arg_bitand)*')
R('parse_arg_bitand', 'parse_arg_shift (BitAnd parse_arg_shift)*')
R('parse_arg_shift', 'parse_arg_add ({Shl Shr} parse_arg_add)*')
R('parse_arg_add', 'parse_arg_mul ({Plus Minus} parse_arg_mul)*')
R('parse_arg_mul', 'parse_unary_minus ({Mul Div Rem} parse_unary_minus)*')
# the minus before a numeric literal is part of the literal unless '**' follows it
macro('ASSIGNMENT', '(?mode:suppress_acc_assign=1 | ?mode:suppress_acc_assign=0 (Assign check_lhs '
      'parse_mul_assign_rhs_if_allowed | {ASSIGN_OP} check_lhs parse_arg)?)')
tokens('NUMBER', 'IntegerLit FloatLit BignumLit')
R('parse_unary_minus', 'parse_exponent ASSIGNMENT | ~Minus (&!{NUMBER} parse_unary_minus ASSIGNMENT | '
  '&{NUMBER} parse_primary(1) (@entry parse_exponent | DMul @Minus parse_exponent ASSIGNMENT))')
R('parse_exponent', 'parse_unary (DMul parse_exponent)?')
R('parse_unary', '~{Plus Not BitNot} parse_unary ASSIGNMENT | parse_method_call')
R('check_lhs', 'check_lhs?')

# ---------------------------------------------------------------- calls and assignments
group('C06')
R('parse_mul_assign_rhs_if_allowed', '?mode:suppress_mul_assign=1 parse_arg | ?mode:suppress_mul_assign=0 parse_mul_assign_rhs(None)')
R('parse_mul_assign_rhs(None)', '(~Mul)? parse_arg (~Comma (~Mul)? parse_arg)*')
R('parse_mul_assign_rhs(RBracket)', '(~RBracket | (~Mul)? parse_arg (~Comma (~Mul)? parse_arg)* (~Comma)? ~RBracket)')
# the first target has been read; at most one splat
def mul_assign(label, splat):
    M(label, 'NoSplat' if splat else 'Any', {
        'Any': [('parse_method_call', 'More'), ('~Mul parse_method_call', 'Last'), ('Assign', 'Value')],
        'More': [('Comma', 'Any'), ('Assign', 'Value')],
        'Last': [('Comma', 'NoSplat'), ('Assign', 'Value')],
        'NoSplat': [('&!{Assign} &!~{Mul} parse_method_call', 'Last'), ('Assign', 'Value')],
        'Value': [('check_lhs check_lhs check_lhs* parse_mul_assign_rhs_if_allowed', 'End')]}, ['End'])


mul_assign('parse_mul_assign', False)
mul_assign('parse_mul_assign(Splat)', True)
R('parse_method_call', '~Yield parse_yield | parse_primary(0) (~Dot parse_primary_method(_,0) | SafeNav parse_primary_method(_,1) |'
  'Scope (~Const (LParen parse_arglist_block(RParen))? | parse_primary_method(_,0)) | LBracket parse_mul_assign_rhs(RBracket))*')


def arglist(close):
    """Arguments: positional, splats, keywords, forwarding; `key => value` pairs end the list; nothing follows a
    block argument"""
    end = '~' + close if close else ''
    rules = {
        'Start': [(end or '&~{Comma}', 'End')],
        'Item': [('parse_arg', 'Arg'), ('~{Mul DMul} parse_arg', 'Next'), ('~Range3', 'Next'),
                 ('~BitAnd parse_arg', 'Block')],
        'Arg': [('', 'Next'), ('^Colon parse_arg', 'Next'), ('~FatArrow parse_arg', 'Pair')],
        'Next': [('~Comma', 'Start' if close else 'Item'), (end, 'End')],
        'Block': [('&!~{Comma} ' + end, 'End')],
        'Pair': [('~Comma', 'Pair2'), (end, 'End')],
        'Pair2': [('parse_arg ~FatArrow parse_arg', 'Pair')] + ([(end, 'End')] if close else []),
    }
    rules['Start'] += rules['Item'] if close else [('&!~{Comma}', 'Item')]
    M('parse_arglist(%s)' % (close or None), 'Start', rules, ['End'])


arglist(None)
arglist('RParen')
R('parse_arglist_block(None)', 'parse_arglist(None) parse_block')
R('parse_arglist_block(RParen)', 'parse_arglist(RParen) parse_block')
R('parse_command', 'parse_arglist_block(None)')
R('parse_function_args', 'LParen parse_arglist_block(RParen) | parse_block')
# an argument list without parentheses follows
tokens('OPERAND', '*Reserved. Ident NumberedParam InstanceVar GlobalVar SpecialVar ClassVar Const IntegerLit BignumLit '
       'FloatLit ImaginaryLit StringLit CommandLit OpenString OpenCommand')
tokens('NOT_COMMAND', 'Do If Unless Rescue While Until And Or Then Elsif Else When Ensure In End')
tokens('PREFIX', 'Colon Plus Minus Mul Div BitAnd Rem Shl')
tokens('START', 'LBracket Scope Arrow Not')
tokens('ADJACENT', 'GlobalVar InstanceVar StringLit FloatLit BignumLit IntegerLit')
macro('COMMAND', '(?trailing_space=1 &{LParen START OPERAND} &!{NOT_COMMAND} | '
      '?trailing_space=1 ?has_trailing_space=0 &{PREFIX} | ?trailing_space=0 &{ADJACENT})')
macro('NO_COMMAND', '(?trailing_space=1 &!{START OPERAND PREFIX} | ?trailing_space=1 &{NOT_COMMAND} | '
      '?trailing_space=1 ?has_trailing_space=1 &{PREFIX} | ?trailing_space=0 &!{ADJACENT})')
macro('METHOD', '(LParen parse_arglist_block(RParen) | !read_method_name (LParen parse_arglist_block(RParen) | '
      'COMMAND parse_arglist_block(None) | NO_COMMAND parse_block))')
R('parse_primary_method(_,0)', 'METHOD')
R('parse_primary_method(_,1)', 'METHOD')
R('parse_super', 'LParen parse_arglist_block(RParen) | COMMAND parse_arglist_block(None) | NO_COMMAND')
R('parse_yield', '&{NO_VALUE NL} | &!{NO_VALUE NL} (~LParen parse_arglist(RParen) | &!~{LParen} parse_arglist(None))')

# ---------------------------------------------------------------- literals
group('C07')
tokens('SYMBOL', 'Ident NumberedParam Const InstanceVar StringLit *Reserved.')
macro('PAIR', '((~^SYMBOL ~Colon | parse_arg ~FatArrow) parse_arg)')
R('parse_hash_literal', '~RBrace | PAIR (~Comma PAIR)* (~Comma)? ~RBrace')
R('parse_symbol', '?trailing_space=0 (!read_symbol_literal | ~StringLit | ~OpenString parse_interporated_string_literal)')
R('parse_template', '~LBrace parse_comp_stmt ~RBrace | ~{GlobalVar SpecialVar ClassVar InstanceVar}')
R('parse_string_literal', 'StringLit* (OpenString parse_interporated_string_literal)?')
macro('PIECES', '(parse_template !read_string_literal_double)+')
R('parse_interporated_string_literal', 'PIECES (^StringLit)* (^OpenString PIECES (^StringLit)*)* &!{StringLit OpenString}')
R('parse_heredocument', '?trailing_space=0 !read_heredocument (here_command | here_double)?')
R('here_double', '!read_string_literal_double parse_interporated_string_literal?')
R('here_command', '!read_command_literal parse_interporated_string_literal?')
R('parse_percent_notation', '!get_percent_notation (parse_interporated_string_literal | !check_postfix)?')
R('parse_regexp', '!get_regexp (parse_template !get_regexp)*')


YES = [('?trailing_space=1', '&{LParen START OPERAND} &!{NOT_COMMAND}'),
       ('?trailing_space=1 ?has_trailing_space=0', '&{PREFIX}'), ('?trailing_space=0', '&{ADJACENT}')]
NO = [('?trailing_space=1', '&!{LParen START OPERAND PREFIX}'), ('?trailing_space=1', '&{NOT_COMMAND}'),
      ('?trailing_space=1 ?has_trailing_space=1', '&{PREFIX}'), ('?trailing_space=0', '&!{ADJACENT}')]


def primary(no_command):
    fn = 'parse_function_args<Ident|NumberedParam|Const>'
    alts = ['?trailing_lparen=1 ~{Ident NumberedParam Const} &{LParen} parse_function_args =>"%s"' % fn,
            '?trailing_lparen=0 ~{Ident NumberedParam} &{LBrace Do} parse_function_args =>"%s"' % fn,
            '~Ident ($true =>"Bool(1)" | $false =>"Bool(0)" | $nil =>"Nil" | $self =>"SelfValue" |'
            '$__LINE__ =>"Integer(_)" | $__FILE__ =>"String(_) | Bytes(_)")',
            '?trailing_lparen=0 ~Ident &{ANY} =>"LocalVar(_, tok.Ident.0)"']
    for name, exc, node in (('Ident', '&!{Comma LBrace Do}', 'Ident(tok.Ident.0)'),
                            ('NumberedParam', '&!{Comma LBrace Do}', 'Ident(tok.NumberedParam.1)'),
                            ('Ident', '&{Comma}', 'Ident(tok.Ident.0)'),
                            ('Const', '', 'Const(0, None, [], tok.Const.0)')):
        if no_command or 'Comma}' in exc and '!' not in exc:
            alts.append('?trailing_lparen=0 ~%s %s =>"%s"' % (name, exc, node))
        else:
            alts += ['?trailing_lparen=0 %s ~%s %s %s parse_command =>"parse_command<%s>"' % (c, name, exc, m, name) for c, m in YES]
            alts += ['?trailing_lparen=0 %s ~%s %s %s =>"%s"' % (c, name, exc, m, node) for c, m in NO]
    for t, node in (('InstanceVar', ''), ('ClassVar', ''), ('GlobalVar', ''), ('SpecialVar', ''), ('IntegerLit', 'Integer'),
                    ('BignumLit', 'Bignum'), ('FloatLit', 'Float'), ('ImaginaryLit', 'Imaginary')):
        alts.append('~%s =>"%s(tok.%s.0)"' % (t, node or t, t))
    alts += ['~CommandLit =>"Command(#String | #Bytes)"', '~Redo =>"Redo"',
             '~LBracket parse_mul_assign_rhs(RBracket) =>"Array(parse_mul_assign_rhs(RBracket)<LBracket>, _)"',
             '~LParen parse_comp_stmt ~RParen =>"parse_comp_stmt<LParen>"',
             '~Scope ~Const =>"Const(1, None, [], tok.Const.0)"',
             '~OpenCommand parse_interporated_string_literal =>"Command(parse_interporated_string_literal<OpenCommand>)"',
             '~Defined LParen parse_expr ~RParen =>"Defined(parse_expr<LParen>)"',
             '~Alias alias_name alias_name =>"AliasMethod(alias_name<Alias>, alias_name<alias_name>)"',
             '~Question !read_char_literal =>"String(_) | Bytes(_)"',
             '~Minus (IntegerLit =>"Integer(neg:tok.IntegerLit.0) | Bignum(neg:tok.IntegerLit.0)" |'
             'BignumLit =>"Bignum(neg:tok.BignumLit.0)" | FloatLit =>"Float(neg:tok.FloatLit.0)" |'
             'parse_unary =>"UnOp(Neg, parse_unary<Minus>)")',
             '~Mul parse_method_call (Comma parse_mul_assign(Splat) =>"parse_mul_assign(Splat)<Comma>" |'
             'Assign check_lhs parse_mul_assign_rhs_if_allowed =>"MulAssign([check_lhs<Assign>],'
             '[elem:parse_mul_assign_rhs_if_allowed] | [Array(parse_mul_assign_rhs_if_allowed<check_lhs> | [], _)])")']
    for toks, f in (('Break', 'parse_break'), ('Next', 'parse_next'), ('Return', 'parse_return'), ('If', 'parse_if'),
                    ('Unless', 'parse_unless'), ('While', 'parse_while(1)'), ('Until', 'parse_while(0)'), ('For', 'parse_for'),
                    ('Case', 'parse_case'), ('Begin', 'parse_begin'), ('Def', 'parse_def'), ('Module', 'parse_class(1)'),
                    ('Class Shl', 'parse_singleton_class'), ('Class', 'parse_class(0)'), ('LBrace', 'parse_hash_literal'),
                    ('Arrow', 'parse_lambda_literal'), ('Shl', 'parse_heredocument'), ('Rem', 'parse_percent_notation'),
                    ('Div', 'parse_regexp'), ('Colon', 'parse_symbol'), ('StringLit', 'parse_string_literal'),
                    ('OpenString', 'parse_interporated_string_literal'), ('Super', 'parse_super')):
        alts.append(' '.join('~' + t for t in toks.split()) + ' %s =>"%s<%s>"' % (f, f, toks.split()[-1]))
    return ' | '.join(alts)


R('parse_primary(0)', primary(False))
R('parse_primary(1)', primary(True))
