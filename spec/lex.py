"""Reference automaton of the lexer.

step(mode, c) -> (mode', outputs) or one of
    'over'   c does not belong to this token
    'bad'    the text is malformed, an error has to follow
    'free'   not specified
final(mode, n1, n2) -> what may be returned when n1 and n2 are the next characters (None: end of the text): a set of
    descriptions of the result, 'cont' (more characters have to be read), 'err' (an error), 'eof' (the error for an
    unexpected end of the text), 'free'.  A set may contain 'err' as well.
Outputs (what is appended to the content of the token):
    ('in',)           the character just consumed
    ('k', codes)      one of these characters
    ('val', base, n)  the character with the number given by the last n digits;  ('byte', base, n) modulo 256, as a byte
                      when it is not ASCII
    ('hex', base, n)  this number as \\xHH
    ('opt', code)     this character or nothing
    ('lost',)         from here on the content is not compared
"""

WORDS = {'BEGIN': 'BEGIN', 'END': 'END'}
for _w in ('alias and begin break case class def defined? do else elsif end ensure for if in module next or redo rescue '
           'return super then until unless when while yield').split():
    WORDS[_w] = _w.rstrip('?').capitalize()

OPS = {
    '(': 'LParen', ')': 'RParen', '[': 'LBracket', ']': 'RBracket', '{': 'LBrace', '}': 'RBrace', ';': 'Semi', ',': 'Comma',
    ':': 'Colon', '::': 'Scope', '.': 'Dot', '..': 'Range2', '...': 'Range3', '?': 'Question', '+': 'Plus', '-': 'Minus',
    '*': 'Mul', '/': 'Div', '%': 'Rem', '**': 'DMul', '>>': 'Shr', '<<': 'Shl', '|': 'BitOr', '&': 'BitAnd', '^': 'BitXor',
    '~': 'BitNot', '!': 'Not', '=': 'Assign', '==': 'Eq', '===': 'TEq', '!=': 'Ne', '>': 'Gt', '>=': 'Ge', '<': 'Lt',
    '<=': 'Le', '<=>': 'Cmp', '&&': 'LAnd', '||': 'LOr', '=~': 'Match', '!~': 'Unmatch', '&.': 'SafeNav', '->': 'Arrow',
    '=>': 'FatArrow',
    '+=': 'AssignOp(Add)', '-=': 'AssignOp(Sub)', '*=': 'AssignOp(Mul)', '/=': 'AssignOp(Div)', '%=': 'AssignOp(Rem)',
    '**=': 'AssignOp(Exp)', '<<=': 'AssignOp(Shl)', '>>=': 'AssignOp(Shr)', '&=': 'AssignOp(BitAnd)', '|=': 'AssignOp(BitOr)',
    '^=': 'AssignOp(BitXor)', '&&=': 'AssignOp(LAnd)', '||=': 'AssignOp(LOr)',
}
METHOD_OPS = set('/ % & | ^ ~ ` * ** + +@ - -@ << < <= <=> > >> >= == === =~ ! != !~ [] []='.split())
ESC = {'a': 7, 'b': 8, 'e': 27, 'f': 12, 'n': 10, 'r': 13, 's': 32, 't': 9, 'v': 11}
RX = {'a': '\\a', 'e': '\\x1b', 'f': '\\f', 'n': '\\n', 'r': '\\r', 's': '[[:space:]]', 't': '\\t', 'v': '\\v'}
GLOBALS = {'&': 0, "'": 1, ':': 10, '"': 11}
GLOBAL_PUNCT = '~*$?!@/\\;,.=<>+`'
GLOBAL_WORDS = {'$LOAD_PATH': 10, '$LOADED_FEATURES': 11}
PAIR = {'(': ')', '[': ']', '{': '}', '<': '>'}
FLAGS = 'imxoun'


def K(s):
    return [('k', frozenset([ord(c)])) for c in s]


def start_ch(c):
    return c is not None and (c.isascii() and c.isalpha() or c == '_' or not c.isascii())


def word_ch(c):
    return start_ch(c) or digit(c)


def digit(c):
    return c is not None and c in '0123456789'


def hexd(c):
    return c is not None and c in '0123456789abcdefABCDEF'


def octd(c):
    return c is not None and c in '01234567'


WS = ' \t\r\x0c'
IN = [('in',)]
LOST = [('lost',)]


def prefix(table, s):
    return any(o.startswith(s) for o in table)


# ------------------------------------------------------------------ strings: contexts
class Ctx(tuple):
    """(kind, open, term, level, bytes)   kind: 'str' 'cmd' 'char'"""


def dq(kind, op, term, level, byte=0):
    return ('dq', (kind, op, term, level, byte))


def start(entry, args):
    if entry == 'get_token':
        return ('ws', 0)
    if entry == 'get_percent_notation':
        return ('pct',)
    if entry in ('read_string_literal_double', 'read_command_literal'):
        return dq('str' if 'string' in entry else 'cmd', args[0][1] or None, args[1][1] or None, args[2])
    if entry == 'get_regexp':
        return ('rx', 0)
    if entry == 'check_postfix':
        return ('flags', 0, 1)
    if entry == 'read_char_literal':
        return ('char',)
    if entry == 'read_symbol_literal':
        return ('sym',)
    if entry == 'read_method_name':
        return ('mws', args[0], 0)
    if entry == 'read_heredocument':
        return ('hd', 0)
    raise KeyError(entry)


def start_out(mode):
    return K('m') if mode[0] == 'flags' else []


GROUP = {}
for _m in 'dq dqhash hat hdol dqend esc hx u4 u{ oct sq sqesc sqend rx rxhash rxe rxhx rxoct flags pct pctd char chend sym sat satn'.split():
    GROUP[_m] = 'text'


def group(mode):
    return GROUP.get(mode[0], 'token')


def newline_skips(mode):
    """whether a newline consumed in this mode ends a line of the program (here documents begin after it)"""
    return mode[0] in ('ws', 'bs', 'comment', 'dq', 'dqhash', 'hat', 'hdol', 'sq', 'rx', 'rxhash', 'mws', 'esc', 'sqesc', 'hdt', 'hdn')


# ------------------------------------------------------------------ step
def step(mode, c):
    return globals()['s_' + NAMES[mode[0]]](mode, c)


def final(mode, n1, n2):
    return globals()['f_' + NAMES[mode[0]]](mode, n1, n2)


NAMES = {m: m for m in ('ws bs comment id us idq op int intu intdot exp0 exp1 imag radix0 radix at atn gl glN gname '
                        'one dq dqhash hat hdol dqend esc hx u4 oct sq sqesc sqend rx rxhash rxe rxhx rxoct flags pct pctd char chend '
                        'sym sat satn mws mn mid midq hd hdq hdn hdt hdb').split()}
NAMES['u{'] = 'ub'


# ---- code
def s_ws(m, c):
    nl = m[1]
    if c in WS:
        return m, []
    if c == '\n':
        return ('ws', 1), []
    if c == '\\':
        return ('bs', nl), []
    if c == '#':
        return ('comment', nl), []
    if nl:
        return 'over'
    if c == '_':
        return ('us', 0), []
    if start_ch(c):
        return ('id', 'c' if c.isupper() and c.isascii() else 'l'), []
    if digit(c):
        return ('int', 'z' if c == '0' else 'd'), [('in', 'first')]
    if c == '"':
        return dq('str', None, '"', 0), []
    if c == '`':
        return dq('cmd', None, '`', 0), []
    if c == "'":
        return ('sq', None, "'", 0, ''), []
    if c == '@':
        return ('at', 1), []
    if c == '$':
        return ('gl',), []
    if c in OPS:
        return ('op', c), []
    return 'free'


def f_ws(m, n1, n2):
    if m[1]:
        return {'LineTerm'}
    return {'Eof'} if n1 is None else 'cont'


def s_bs(m, c):
    if c == '\n':
        return ('ws', m[1]), []
    return 'over'


def f_bs(m, n1, n2):
    if n1 == '\n':
        return 'cont'
    if n1 == '\r':
        return 'free'
    return 'over' if m[1] else {'Punct(Backslash)'}


def s_comment(m, c):
    return (('ws', 1), []) if c == '\n' else (m, [])


def f_comment(m, n1, n2):
    if m[1] and n1 in (None, '\n'):
        return {'LineTerm'}
    return {'Eof'} if n1 is None else 'cont'


# ---- names
def s_id(m, c):
    if word_ch(c):
        return m, []
    if c in '!?':
        return ('idq', m[1], c), []
    return 'over'


def f_id(m, n1, n2):
    r = {'Const(text)' if m[1] == 'c' else 'Ident(text)'}
    if word_ch(n1):
        return 'cont'
    if n1 == '?':
        return 'free' if n2 == '=' else 'cont'
    if n1 == '!' and n2 != '=':
        return 'cont'
    return r


def s_idq(m, c):
    return 'over'


def f_idq(m, n1, n2):
    if m[2] == '!' and n1 == '=':
        return 'over'
    return {'Const(text)', 'Ident(text)'} if m[1] == 'c' else {'Ident(text)'}


def s_us(m, c):
    if m[1] == 0 and digit(c):
        return ('us', 1 if c != '0' else 2), []
    return s_id(('id', 'l'), c)


def f_us(m, n1, n2):
    if word_ch(n1):
        return 'cont'
    if m[1] and (n1 in ('!', '?') or m[1] == 2):
        return 'free'
    return {'NumberedParam(*)'} if m[1] else f_id(('id', 'l'), n1, n2)


# ---- operators
def s_op(m, c):
    t = m[1] + c
    return (('op', t), []) if prefix(OPS, t) else 'over'


def f_op(m, n1, n2):
    if n1 is not None and prefix(OPS, m[1] + n1):
        return 'cont'
    return {'Punct(%s)' % OPS[m[1]]} if m[1] in OPS else 'err'


# ---- numbers: int (kind: z after the first 0, d decimal, f after the point, e exponent)
KINDS = {'z': ('IntegerLit(num(10,buf))', 'BignumLit(num(10,buf))'), 'd': ('IntegerLit(num(10,buf))', 'BignumLit(num(10,buf))'),
         'f': ('FloatLit(num(f,buf))',), 'e': ('FloatLit(num(f,buf))',)}
IMAG = {'z': ('ImaginaryLit(Integer(num(10,buf)))', 'ImaginaryLit(Bignum(num(10,buf)))'),
        'f': ('ImaginaryLit(Float(num(f,buf)))',)}
IMAG['d'], IMAG['e'] = IMAG['z'], IMAG['f']


def alt_text(r):
    return set(r) | {x.replace('buf', 'text') for x in r}


def s_int(m, c):
    k = m[1]
    if k == 'z':
        if c in 'xob':
            return ('radix0', {'x': 16, 'o': 8, 'b': 2}[c], 2), []
        if c == '_':
            return ('radix0', 8, 2), []
        if octd(c):
            return ('radix', 8, 1, 1), LOST
        if digit(c):
            return 'bad'
        if c in 'XOBDd':
            return 'free'
    elif digit(c):
        return m, IN
    elif c == '_':
        return ('intu', k), []
    if c == '.' and k in 'zd':
        return ('intdot',), []
    if c in 'eE' and k != 'e':
        return ('exp0',), [('k', frozenset(b'eE'))]
    if c == 'i':
        return ('imag', k), []
    return 'over'


def f_int(m, n1, n2):
    k = m[1]
    if k == 'z' and n1 is not None:
        if n1 in '01234567':
            return 'cont'
        if n1 in 'xob_':
            return 'cont'
        if n1 in '89':
            return {'err'}
        if n1 in 'XOBDd':
            return 'free'
    elif digit(n1):
        return 'cont'
    elif n1 == '_':
        return 'cont' if digit(n2) else 'free'
    if n1 == '.' and digit(n2) and k in 'zd':
        return 'cont'
    if n1 is not None and n1 in 'eE' and k != 'e':
        return 'cont' if digit(n2) else 'free'
    if n1 == 'i':
        return alt_text(KINDS[k]) if word_ch(n2) else 'cont'
    if n1 == 'r':
        return 'free'
    return alt_text(KINDS[k])


def s_intu(m, c):
    return (('int', m[1]), IN) if digit(c) else 'free'


def f_intu(m, n1, n2):
    return 'cont' if digit(n1) else 'free'


def s_intdot(m, c):
    return (('int', 'f'), K('.') + IN) if digit(c) else 'over'


def f_intdot(m, n1, n2):
    return 'cont' if digit(n1) else 'over'


def s_exp0(m, c):
    if digit(c):
        return ('int', 'e'), IN
    if c in '+-':
        return ('exp1',), K('-') if c == '-' else [('opt', 43)]
    return 'bad'


def f_exp0(m, n1, n2):
    if digit(n1) or n1 in ('+', '-') and digit(n2):
        return 'cont'
    return 'free'


def s_exp1(m, c):
    return (('int', 'e'), IN) if digit(c) else 'bad'


def f_exp1(m, n1, n2):
    return 'cont' if digit(n1) else 'free'


def s_imag(m, c):
    return 'over'


def f_imag(m, n1, n2):
    return 'over' if word_ch(n1) else alt_text(IMAG[m[1]])


def isd(base, c):
    return c is not None and c in {16: '0123456789abcdefABCDEF', 8: '01234567', 2: '01'}[base]


def s_radix0(m, c):
    return (('radix', m[1], m[2], 1), LOST) if isd(m[1], c) else 'bad'


def f_radix0(m, n1, n2):
    return 'cont' if isd(m[1], n1) else {'err'}


def s_radix(m, c):
    if isd(m[1], c):
        return m[:3] + (1,), []
    if c == '_':
        return m[:3] + (0,), []
    return 'over'


def f_radix(m, n1, n2):
    if isd(m[1], n1):
        return 'cont'
    if not m[3]:
        return 'free'
    if n1 == '_':
        return 'cont' if isd(m[1], n2) else 'free'
    if digit(n1) or n1 in ('i', 'r'):
        return 'free'
    out = set()
    for k in ('IntegerLit', 'BignumLit'):
        out.add('%s(num(%d,slice[%d,here]))' % (k, m[1], m[2]))
        out.add('%s(num(%d,buf))' % (k, m[1]))
        if m[2] == 1:
            out.add('%s(num(%d,text))' % (k, m[1]))
    return out


# ---- variables
def s_at(m, c):
    if c == '@' and m[1] == 1:
        return ('at', 2), []
    return (('atn', m[1]), []) if start_ch(c) else 'bad'


def f_at(m, n1, n2):
    return 'cont' if start_ch(n1) or n1 == '@' and m[1] == 1 and start_ch(n2) else {'err'}


def s_atn(m, c):
    return (m, []) if word_ch(c) else 'over'


def f_atn(m, n1, n2):
    return 'cont' if word_ch(n1) else {'%s(text)' % ('InstanceVar' if m[1] == 1 else 'ClassVar')}


def s_gl(m, c):
    if c == '0':
        return ('one', "GlobalVar('$0')"), []
    if digit(c):
        return ('glN', 1), []
    if start_ch(c):
        return ('gname',), []
    if c in GLOBALS:
        return ('one', 'SpecialVar(%d)' % GLOBALS[c]), []
    if c in GLOBAL_PUNCT:
        return ('one', 'GlobalVar(fmt(new_display:in0))'), []
    return 'free' if c.isprintable() and c != ' ' else 'bad'


def f_gl(m, n1, n2):
    if n1 is None or n1 in ' \t\n':
        return {'err'}
    return 'cont'


def s_one(m, c):
    return 'free' if m[1] == "GlobalVar('$0')" and word_ch(c) else 'over'


def f_one(m, n1, n2):
    if m[1] == "GlobalVar('$0')" and word_ch(n1):
        return 'free'
    r = {m[1]}
    if m[1].startswith('Global'):
        r.add('GlobalVar(text)')
    if 'in0' in m[1]:
        r |= {m[1].replace('in0', 'c%d' % ord(c)) for c in GLOBAL_PUNCT}
    return r


def s_glN(m, c):
    return (('glN', min(m[1] + 1, 10)), []) if digit(c) else 'over'


def f_glN(m, n1, n2):
    if digit(n1):
        return 'cont'
    return {'SpecialVar(val(%d,%d,here,100,))' % (10 if m[1] > 1 else 0, m[1])}


def s_gname(m, c):
    return (m, []) if word_ch(c) else 'over'


def f_gname(m, n1, n2):
    return 'cont' if word_ch(n1) else {'GlobalVar(text)'} | {'SpecialVar(%d)' % i for i in GLOBAL_WORDS.values()}


# ---- a # that may begin an interpolation   (m[1]: the literal, m[2]: number of @)
def s_hash(lit, c):
    if c == '{':
        return 'over'
    r, out = step(lit, c)
    if r == lit and c in '$@':
        r = ('hat', lit, 1) if c == '@' else ('hdol', lit)
    return r, K('#') + out


def s_hat(m, c):
    if start_ch(c):
        return 'over'
    if c == '@' and m[2] == 1:
        r = step(m[1], c)
        return (('hat', m[1], 2) if r[0] == m[1] else r[0]), r[1]
    return step(m[1], c)


def s_hdol(m, c):
    if start_ch(c) or digit(c):
        return 'over'
    if c.isspace() or c == '#':
        return step(m[1], c)
    return 'free'


def f_hat(m, n1, n2):
    return final(m[1], n1, n2)


f_hdol = f_hat


# ---- strings in which escapes and interpolations have a meaning
def s_dq(m, c):
    kind, op, term, level, byte = m[1]
    if c == op:
        return ('dq', (kind, op, term, level + 1, byte)), IN
    if c == term:
        if level == 0:
            return ('dqend', m[1]), []
        return ('dq', (kind, op, term, level - 1, byte)), IN
    if c == '\\':
        return ('esc', m[1]), []
    if c == '#':
        return ('dqhash', m[1]), []
    return m, IN


def f_dq(m, n1, n2):
    if n1 is not None:
        return 'cont'
    return 'eof' if m[1][2] is not None else f_dqend(('dqend', m[1]), None, None)


def s_dqhash(m, c):
    return s_hash(('dq', m[1]), c)


def f_dqhash(m, n1, n2):
    kind, op, term, level, byte = m[1]
    if n1 is None and term is None:
        return 'free'
    o = lambda c: 'None' if c is None else 'Some(%d)' % ord(c)
    if kind == 'str':
        r = {'OpenString(buf,%s,%s,%d)' % (o(op), o(term), level)}
    else:
        r = {'OpenCommand(buf,%s,%d)' % (o(term), level)}
    if byte:
        r.add('err')
    if n1 == '{':
        return r
    if n1 in ('$', '@'):
        if start_ch(n2) or n1 == '$' and digit(n2):
            return r
        return 'free'
    return 'eof' if n1 is None else 'cont'


def s_dqend(m, c):
    return 'over'


def f_dqend(m, n1, n2):
    kind, op, term, level, byte = m[1]
    if kind == 'cmd':
        return {'CommandLit(buf)'} | ({'err'} if byte else set())
    r = {'StringLit(Utf8(buf))'}
    if byte:
        r.add('StringLit(Bytes(buf))')
    return r


def back(ctx, byte=False):
    """after an escape sequence"""
    if ctx[0] == 'char':
        return ('chend',)
    return ('dq', ctx[:4] + (1,) if byte else ctx)


def s_esc(m, c):
    ctx = m[1]
    if c == '\n':
        return (back(ctx), []) if ctx[0] != 'char' else 'free'
    if c in 'McC\r':
        return 'free'
    if c in ESC:
        return back(ctx), [('k', frozenset([ESC[c]]))]
    if c == 'x':
        return ('hx', ctx, 0), []
    if c == 'u':
        return ('u4', ctx, 0), []
    if octd(c):
        return ('oct', ctx, 1), []
    return back(ctx), IN


def f_esc(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def pend(m, outs, c):
    """the sequence ends before c"""
    nm = back(m[1], byte=bool(outs and outs[0][0] == 'byte' and outs[0][2] > 1))
    r = step(nm, c)
    if isinstance(r, str):
        return r
    return r[0], outs + r[1]


def s_hx(m, c):
    if hexd(c):
        if m[2] == 1:
            return back(m[1], True), [('byte', 16, 2)]
        return ('hx', m[1], 1), []
    if m[2] == 0:
        return 'bad'
    return pend(m, [('byte', 16, 1)], c)


def f_end(m, n1, n2, outs):
    nm = back(m[1], byte=bool(outs and outs[0][2] > 1))
    r = final(nm, n1, n2)
    return (r, outs)


def f_hx(m, n1, n2):
    if hexd(n1):
        return 'cont'
    if m[2] == 0:
        return {'err'}
    return f_end(m, n1, n2, [('byte', 16, 1)])


def s_oct(m, c):
    if octd(c) and m[2] < 3:
        if m[2] == 2:
            return back(m[1], True), [('byte', 8, 3)]
        return ('oct', m[1], m[2] + 1), []
    return pend(m, [('byte', 8, m[2])], c)


def f_oct(m, n1, n2):
    if octd(n1):
        return 'cont'
    return f_end(m, n1, n2, [('byte', 8, m[2])])


def s_u4(m, c):
    if hexd(c):
        if m[2] == 3:
            return back(m[1]), [('val', 16, 4)]
        return ('u4', m[1], m[2] + 1), []
    if m[2] == 0 and c == '{':
        return ('u{', m[1], 0, 0), []
    return 'bad'


def bad_already(mode):
    """what was read is malformed whatever follows (at the end of the text)"""
    return mode[0] == 'u{' and mode[2] >= 4


def f_u4(m, n1, n2):
    return 'cont' if hexd(n1) or m[2] == 0 and n1 == '{' else {'err'}


def s_ub(m, c):
    _, ctx, n, any_ = m
    if hexd(c):
        return ('u{', ctx, n + 1, 1) if n < 6 else ('u{', ctx, 7, 1), []
    out = [('val', 16, n)] if n else []
    if n == 7:
        return 'bad'
    if c == ' ':
        return ('u{', ctx, 0, any_), out
    if c == '}':
        return (back(ctx), out) if any_ else 'free'
    return 'free' if c in '\t\n\r' else 'bad'


def f_ub(m, n1, n2):
    if n1 is None or m[2] >= 4:
        return {'err'}
    if m[2] < 6 and hexd(n1) or n1 in (' ', '}'):
        return 'cont'
    return 'free' if n1 in '\t\n\r' else {'err'}


# ---- strings in which they have not   (flavour: '' the content is final, 'r' a regexp, 'w' processed later)
def s_sq(m, c):
    _, op, term, level, fl = m
    if c == op:
        return ('sq', op, term, level + 1, fl), IN
    if c == term:
        if level == 0:
            return ('sqend', fl), []
        return ('sq', op, term, level - 1, fl), IN
    if c == '\\':
        return ('sqesc',) + m[1:], []
    if c == '#' and fl in ('W', 'I', 'x', 'r'):
        return ('sq', op, term, level, fl), IN
    return m, IN


def f_sq(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_sqesc(m, c):
    _, op, term, level, fl = m
    b = ('sq',) + m[1:]
    if c == '\n':
        return 'free'
    if fl in ('W', 'I', 'x') and c not in (op, term):
        return 'free'
    if fl == 'r':
        return b, K('\\') + IN
    if c == '\\':
        return b, K('\\')
    if c in (op, term):
        return b, IN
    return b, K('\\') + IN


def f_sqesc(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_sqend(m, c):
    return 'over'


def f_sqend(m, n1, n2):
    if m[1]:
        return {'PercentNotation(%d,buf)' % ord(m[1]), 'PercentNotation(c%d,buf)' % ord(m[1])}
    return {'StringLit(Utf8(buf))'}


# ---- %
def s_pct(m, c):
    if c in 'qQwWiIsxr':
        return ('pctd', c), []
    if c.isascii() and c.isalnum():
        return 'bad'
    if c.isspace() or not c.isprintable() or c in '\\#':
        return 'free'
    return dq('str', c if c in PAIR else None, PAIR.get(c, c), 0), []


def f_pct(m, n1, n2):
    if n1 is not None and n1.isascii() and n1.isalnum() and n1 not in 'qQwWiIsxr':
        return {'err'}
    return 'cont' if n1 is not None else {'err'}


def s_pctd(m, c):
    k = m[1]
    if c.isascii() and c.isalnum():
        return 'bad'
    if c.isspace() and k in 'wWiI':
        return 'bad'
    if c.isspace() or not c.isprintable() or c in '\\#':
        return 'free'
    op, term = (c, PAIR[c]) if c in PAIR else (None, c)
    if k == 'Q':
        return dq('str', op, term, 0), []
    return ('sq', op, term, 0, '' if k == 'q' else k), []


def f_pctd(m, n1, n2):
    if n1 is None or n1.isascii() and n1.isalnum() or n1.isspace() and m[1] in 'wWiI':
        return {'err'}
    return 'cont'


# ---- regular expressions
def s_rx(m, c):
    d = m[1]
    if c == '/':
        return ('flags', 0, 0), K('m')
    if c == '[':
        return ('rx', d + 1), IN
    if c == ']':
        return ('rx', max(0, d - 1)), IN
    if c == '\\':
        return ('rxe', d), []
    if c == '#':
        return ('rxhash', d), []
    return m, IN


def f_rx(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_rxhash(m, c):
    return s_hash(('rx', m[1]), c)


def f_rxhash(m, n1, n2):
    r = {'OpenRegex(buf)'}
    if n1 == '{':
        return r
    if n1 in ('$', '@'):
        return r if start_ch(n2) or n1 == '$' and digit(n2) else 'free'
    return 'eof' if n1 is None else 'cont'


def s_rxe(m, c):
    b = ('rx', m[1])
    if c in RX:
        return b, K(RX[c])
    if c == 'b':
        return b, K('\\b' if m[1] == 0 else '\\x08')
    if c == 'x':
        return ('rxhx', m[1], 0), []
    if c == '0':
        return ('rxoct', m[1], 1), []
    if digit(c):
        return ('rxoct', m[1], 0, c), []
    if c in '\n\r':
        return 'free'
    return b, K('\\') + IN


def f_rxe(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_rxhx(m, c):
    if hexd(c):
        if m[2] == 1:
            return ('rx', m[1]), [('opt', 92), ('hex', 16, 2)]
        return ('rxhx', m[1], 1), []
    if m[2] == 0:
        return 'free'
    r = step(('rx', m[1]), c)
    return r if isinstance(r, str) else (r[0], [('opt', 92), ('hex', 16, 1)] + r[1])


def f_rxhx(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_rxoct(m, c):
    if m[2] == 0:
        # a back reference; several digits depend on the number of groups
        if digit(c):
            return 'free'
        r = step(('rx', m[1]), c)
        return r if isinstance(r, str) else (r[0], K('\\') + [('k', frozenset([ord(m[3])]), 1)] + r[1])
    if octd(c) and m[2] < 3:
        if m[2] == 2:
            return ('rx', m[1]), [('opt', 92), ('hex', 8, 3)]
        return ('rxoct', m[1], m[2] + 1), []
    r = step(('rx', m[1]), c)
    return r if isinstance(r, str) else (r[0], [('opt', 92), ('hex', 8, m[2])] + r[1])


def f_rxoct(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_flags(m, c):
    if c not in FLAGS:
        return 'over'
    return ('flags', 1 if c == 'x' else m[1], m[2]), K({'i': 'i', 'm': 's'}.get(c, ''))


def f_flags(m, n1, n2):
    if n1 is not None and n1 in FLAGS:
        return 'cont'
    if word_ch(n1):
        return 'free'
    return {'(buf,%d)' % m[1]} if m[2] else {'Regex(buf,buf,%d)' % m[1]}


# ---- ?c
def s_char(m, c):
    if c == '\\':
        return ('esc', ('char', None, None, 0, 0)), []
    return ('chend',), IN


def f_char(m, n1, n2):
    return 'eof' if n1 is None else 'cont'


def s_chend(m, c):
    return 'over'


def f_chend(m, n1, n2):
    return {'()'}


# ---- symbols and names of methods
def s_sym(m, c):
    if c == '@':
        return ('sat', 1), []
    if c in '"\'':
        return 'over'
    if c in WS + '\n':
        return 'free'
    r = s_mws(('mws', 1, 1), c)
    return r


def f_sym(m, n1, n2):
    if n1 is None:
        return {'err'}
    if n1 in '"\'':
        return {'None'}
    if n1 in WS + '\n':
        return 'free'
    return 'cont' if n1 == '@' else f_mws(('mws', 1, 1), n1, n2)


def s_sat(m, c):
    if c == '@' and m[1] == 1:
        return ('sat', 2), []
    return (('satn',), []) if start_ch(c) else 'bad'


def f_sat(m, n1, n2):
    return 'cont' if start_ch(n1) or n1 == '@' and m[1] == 1 and start_ch(n2) else {'err'}


def s_satn(m, c):
    return (m, []) if word_ch(c) else 'over'


def f_satn(m, n1, n2):
    return 'cont' if word_ch(n1) else {'Some((text,_))', 'Some((buf,_))'}


def s_mws(m, c):
    if c in WS + '\n' and not m[2]:
        return m, []
    if c in WS + '\n\\$':
        return 'free'
    if start_ch(c):
        return ('mid',) + m[1:], []
    if prefix(METHOD_OPS, c):
        return ('mn', c) + m[2:], []
    return 'bad'


def f_mws(m, n1, n2):
    if n1 is None:
        return {'err'}
    if n1 in WS + '\n' and not m[2]:
        return 'cont'
    if n1 in WS + '\n\\$':
        return 'free'
    return 'cont' if start_ch(n1) or any(o[0] == n1 and (len(o) == 1 or o[1] == n2) for o in METHOD_OPS) else {'err'}


def res(sym):
    return {'Some((text,_))', 'Some((buf,_))'} if sym else {'(text,_)', '(buf,_)'}


def s_mn(m, c):
    t = m[1] + c
    if prefix(METHOD_OPS, t):
        return ('mn', t) + m[2:], []
    return 'over' if m[1] in METHOD_OPS else 'bad'


def f_mn(m, n1, n2):
    t = m[1]
    if n1 is not None and t + n1 in METHOD_OPS:
        return 'cont'
    if t in ('!', '~') and n1 == '@':
        return 'free'
    if n1 is not None and prefix(METHOD_OPS, t + n1):
        return 'free' if t in METHOD_OPS else {'err'}
    return res(m[2]) if t in METHOD_OPS else {'err'}


def s_mid(m, c):
    if word_ch(c):
        return m, []
    if c in '!?' or c == '=' and m[1]:
        return ('midq', c) + m[1:], []
    return 'over'


def f_mid(m, n1, n2):
    if word_ch(n1):
        return 'cont'
    if n1 == '?':
        return 'free' if n2 == '=' else 'cont'
    if n1 == '!' and n2 != '=':
        return 'cont'
    if n1 == '=' and m[1] and n2 not in ('=', '>', '~'):
        return 'cont'
    return res(m[2])


def s_midq(m, c):
    return 'over'


def f_midq(m, n1, n2):
    if m[1] == '!' and n1 == '=':
        return 'over'
    if m[1] == '=' and n1 in ('>', '~', '='):
        return 'over'
    return res(m[3])


# ---- the beginning of a here document
def s_hd(m, c):
    if c in '-~' and not m[1]:
        return ('hd', 1), []
    if c in '"\'`':
        return ('hdq', c), []
    return (('hdn', None), []) if start_ch(c) else 'free' if digit(c) else 'bad'


def f_hd(m, n1, n2):
    if n1 is None or not (word_ch(n1) or n1 in '"\'`' or n1 in '-~' and not m[1]):
        return {'err'}
    return 'free' if digit(n1) else 'cont'


def s_hdq(m, c):
    return (('hdn', m[1]), []) if start_ch(c) else 'free'


def f_hdq(m, n1, n2):
    return 'cont' if start_ch(n1) else 'free'


def s_hdn(m, c):
    if word_ch(c):
        return m, []
    if m[1] is None:
        return s_hdt(('hdt', None), c)
    return (('hdt', m[1]), []) if c == m[1] else 'free'


def f_hdn(m, n1, n2):
    if m[1] is None or word_ch(n1) or n1 == m[1]:
        return {'err'} if n1 is None else 'cont'
    return 'free'


def s_hdt(m, c):
    return (('hdb' if c == '\n' else 'hdt', m[1]), [])


def f_hdt(m, n1, n2):
    return {'err'}


def s_hdb(m, c):
    return m, []


def f_hdb(m, n1, n2):
    return {'err', '(%s,*)' % {None: 'Double', '"': 'Double', "'": 'Single', '`': 'Command'}[m[1]]}
