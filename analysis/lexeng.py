"""Character-level analysis of the lexer.

The source text is an unbounded sequence of cells that are read lazily. A character is a symbol with the set of the
code points it may still be (all of ASCII and some representatives of the rest); positions are symbols of their own,
linked by `next`. The graph of a lexer function carries these events:
  ('ch', mask)             the next character was consumed (it is one of the characters of the mask)
  ('push', what, desc, nextmask)   something was appended to the text being built (what: 'char', 'byte', 'str', 'enc')
  ('is', text, 0|1)        the text of the token was compared with a constant
  ('hlook', 0|1) ('hskip',)   the position was compared with the end of the pending here documents / moved there
  ('iter',) ('back',) ('panic', kind, fn) ('unknown', name) ('imprecise',) ('split',)
Exits: (description of the result, what is known about the next two characters).
"""
import unicodedata
from models import *
from prog import short

LEXER = 'parser::lexer::Lexer'
POS = -2
REPS = (0xE9, 0x663, 0x3000, 0x1F600)
CPS = tuple(range(128)) + REPS
BIT = {c: 1 << i for i, c in enumerate(CPS)}
FULL = (1 << len(CPS)) - 1
ASCII = (1 << 128) - 1
EOF = 1 << len(CPS)          # in masks of what may follow
FAR = ('prim', 'far')
MAXINT = 10


def mask_of(pred):
    m = 0
    for c in CPS:
        if pred(c):
            m |= BIT[c]
    return m


def cps_of(mask):
    return [c for c in CPS if BIT[c] & mask]


ASC = lambda f: (lambda c: c < 128 and f(chr(c)))
PRED = {
    'is_ascii_alphabetic': ASC(str.isalpha), 'is_ascii_digit': ASC(str.isdigit),
    'is_ascii_alphanumeric': ASC(str.isalnum), 'is_ascii_uppercase': ASC(str.isupper),
    'is_ascii_lowercase': ASC(str.islower), 'is_ascii_hexdigit': ASC(lambda x: x in '0123456789abcdefABCDEF'),
    'is_ascii_whitespace': ASC(lambda x: x in ' \t\n\r\x0c'),
    'is_ascii_punctuation': ASC(lambda x: 33 <= ord(x) < 127 and not x.isalnum()),
    'is_ascii_graphic': ASC(lambda x: 33 <= ord(x) < 127),
    'is_ascii_control': ASC(lambda x: ord(x) < 32 or ord(x) == 127),
    'is_ascii': lambda c: c < 128,
    'is_numeric': lambda c: unicodedata.category(chr(c)) in ('Nd', 'Nl', 'No'),
    'is_alphabetic': lambda c: chr(c).isalpha(),
    'is_alphanumeric': lambda c: chr(c).isalpha() or unicodedata.category(chr(c)) in ('Nd', 'Nl', 'No'),
    'is_whitespace': lambda c: chr(c).isspace() and not 0x1c <= c <= 0x1f,
    'is_uppercase': lambda c: chr(c).isupper(), 'is_lowercase': lambda c: chr(c).islower(),
    'is_control': lambda c: unicodedata.category(chr(c)) == 'Cc',
}
PREDM = {k: mask_of(f) for k, f in PRED.items()}

# classes into which a consumed character is split
_sig = {}
for _c in CPS:
    _x = chr(_c)
    if _c >= 128:
        _s = (_c,)
    elif PRED['is_ascii_punctuation'](_c) or _x in ' \n01abefimnoqrstuvwxEIQWABCDXO':
        _s = (_c,)
    elif _x.isdigit():
        _s = 'oct' if _x < '8' else 'dig'
    elif _x.isalpha():
        _s = ('up' if _x.isupper() else 'low') + ('hex' if _x in 'cdF' else '')
    elif _x in '\t\r\x0c':
        _s = 'ws'
    else:
        _s = 'ctl'
    _sig[_s] = _sig.get(_s, 0) | BIT[_c]
CLASSES = sorted(_sig.values())
# ... the first one of a token
FIRST = [BIT[_c] for _c in CPS if PRED['is_ascii_punctuation'](_c) or _c >= 128 or _c in (32, 10, 48)]
for _f in (str.islower, str.isupper, str.isdigit):
    FIRST.append(mask_of(ASC(_f)) & ~sum(FIRST))
FIRST.append(FULL & ~sum(FIRST))
# what is remembered of the first characters of a token
COARSE = [mask_of(PRED['is_ascii_lowercase']), mask_of(PRED['is_ascii_uppercase']), mask_of(PRED['is_ascii_digit']), BIT[ord('_')],
          FULL & ~ASCII]
WORD = sum(COARSE) & ~COARSE[2]
COARSE.append(FULL & ~sum(COARSE))


def consts_in(b):
    """integers a value is compared with in a block"""
    out = []

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 3 and x[0] in ('bin', 'binop'):
                if str(x[1]) in LexEngine.CMP:
                    for y in x[2:]:
                        if isinstance(y, (list, tuple)) and y and y[0] == 'const' and isinstance(y[1], dict):
                            try:
                                out.append(int(y[1].get('int', y[1].get('v'))))
                            except (TypeError, ValueError):
                                pass
            for y in x:
                walk(y)
    walk(b['s'])
    return out


class Reread(Exception):
    """a character that was consumed and forgotten is read again"""


class LexEngine(Models):
    MAXSTATES = 150000

    def __init__(self, prog):
        super().__init__(prog)
        self._limits = {}
        self.char = prog.tyname.get('char')
        if self.char is None:
            raise AnalysisError('anchor: type char')
        prog._enum[self.char] = [(c,) for c in CPS]
        prog._part[(self.char, ())] = dict(BIT)
        self.fields = None
        for t in prog.types:
            if t['k'] == 'adt' and t.get('def') == LEXER:
                self.fields = [f['n'] for f in t['variants'][0]['fields']]
                self.field_tys = [f['t'] for f in t['variants'][0]['fields']]
        if self.fields is None or not {'pos', 'token_start_pos', 'heredoc_pos', 'code'} <= set(self.fields):
            raise AnalysisError('anchor: fields of %s' % LEXER)

    # ------------------------------------------------------------ positions
    def new_pos(self, st):
        st.nid += 1
        st.syms[st.nid] = (POS, None, ('pos',), ())
        return ('sym', st.nid, ())

    def is_pos(self, st, v):
        return v[0] == 'sym' and st.syms[v[1]][0] == POS

    def pget(self, st, p, key):
        for k, v in st.syms[p[1]][3]:
            if k == key:
                return v
        return None

    def pset(self, st, p, key, v):
        ty, m, o, ch = st.syms[p[1]]
        st.syms[p[1]] = (ty, m, o, tuple((k, x) for k, x in ch if k != key) + ((key, v),))

    def nextp(self, st, p):
        n = self.pget(st, p, 'next')
        if n is None:
            n = self.new_pos(st)
            self.pset(st, p, 'next', n)
        return n

    def field(self, st, name):
        return st.heap['self'][3][self.fields.index(name)]

    def ahead(self, st, p, n=2):
        """what the n characters at p may be"""
        out = []
        for _ in range(n):
            c = self.pget(st, p, 'ch')
            if c is None:
                out.append(FULL | EOF)
            elif c == NONE:
                out.append(EOF)
                break
            else:
                out.append(st.syms[c[3][0][1]][1])
            p = self.pget(st, p, 'next')
            if p is None or p == FAR:
                break
        while len(out) < n:
            out.append(EOF if out[-1] == EOF else FULL | EOF)
        return tuple(out)

    def read_cell(self, st, p):
        """-> [(state, NONE | some(char))]"""
        c = self.pget(st, p, 'ch')
        if c is not None:
            return [(st, c)]
        if self.pget(st, p, 'past') is not None:
            if self.memory:
                st.ev.append(('imprecise',))
            else:
                raise Reread()
        s2 = st.copy()
        self.pset(s2, p, 'ch', NONE)
        x = self.new_sym(st, self.char, ('cell',))
        self.pset(st, p, 'ch', some(x))
        self.nextp(st, p)
        return [(s2, NONE), (st, some(x))]

    # ------------------------------------------------------------ entry
    def run_fn(self, path, args=None, first=None):
        self.memory = False
        try:
            return self.run_once(path, args, first)
        except Reread:
            self.memory = True
            return self.run_once(path, args, first)

    def run_once(self, path, args, first_chars):
        """args: values of the arguments after self; first_chars: masks of the first characters"""
        P = self.P
        fn = P.fns[path]
        self.root = path
        st = State.__new__(State)
        st.gs = 0
        st.frames, st.heap, st.syms, st.nid, st.ev, st.g = [], {}, {}, 0, [], None
        pos = self.new_pos(st)
        vals = {'pos': pos, 'token_start_pos': pos, 'heredoc_pos': ('prim', 'hpos'), 'code': ('rv', ('prim', 'code'))}
        st.heap['self'] = ('adt', LEXER, 0, tuple(
            vals[n] if n in vals else self.new_sym(st, ty, ('field', n)) if P.is_enum(ty) else TOP
            for n, ty in zip(self.fields, self.field_tys)))
        st.heap['$at'] = pos
        locs = {1: ('ref', ('H', 'self'), ())}
        for i in range(1, fn['argc']):
            ty = fn['locals'][i + 1]
            t = P.ty(ty)
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                v = args[i - 1]
                if v == ('tokhere',):
                    # a token that ends here; the lexer may have gone on
                    v = self.token_before(P.ty(t['inner']) if t and t['k'] == 'ref' else t, pos)
                    st.heap['$tokend'] = pos
                    far = self.new_pos(st)
                    me = st.heap['self']
                    st.heap['self'] = me[:3] + (tuple(far if n == 'pos' else x for n, x in zip(self.fields, me[3])),)
                if t and t['k'] == 'ref' and v[0] not in ('ref', 'rv'):
                    st.heap['arg%d' % i] = v
                    v = ('ref', ('H', 'arg%d' % i), ())
            elif t and t['k'] == 'ref' and t.get('mut') is not False and (P.ty(t['inner']) or {}).get('k') == 'adt':
                st.heap['arg%d' % i] = ('prim', 'buf')
                v = ('ref', ('H', 'arg%d' % i), ())
            elif t and t['k'] == 'bool':
                v = self.new_sym(st, ty, ('arg',))
            elif t and t['k'] == 'char':
                v = self.new_sym(st, ty, ('arg',))
            else:
                v = TOP
            locs[i + 1] = v
        st.frames.append(Frame(fn, 0, locs, None, -1))
        P.prepare(fn)
        for m in first_chars or ():
            x = self.new_sym(st, self.char, ('cell',), m)
            self.pset(st, pos, 'ch', some(x))
            pos = self.nextp(st, pos)
        return self.explore(st)

    # ------------------------------------------------------------ consumption
    def step_block(self, st):
        fnpath = st.frames[-1].fn['path']
        out = []
        for kind, s in super().step_block(st):
            if kind == 'dead' or self.field(s, 'pos') == s.heap['$at']:
                out.append((kind, s))
                continue
            out.extend((kind, x) for x in self.moved(s))
        return out

    def moved(self, st):
        old, new = st.heap['$at'], self.field(st, 'pos')
        if not self.is_pos(st, new):
            if new == ('prim', 'hpos'):
                p = self.new_pos(st)
                i = self.fields.index('pos')
                me = st.heap['self']
                st.heap['self'] = me[:3] + (me[3][:i] + (p,) + me[3][i + 1:],)
                st.heap['$at'] = p
                st.heap['$hdone'] = ('c', 1)
                st.ev.append(('hskip',))
                return [st]
            st.ev.append(('unknown', 'position'))
            p = self.new_pos(st)
            i = self.fields.index('pos')
            me = st.heap['self']
            st.heap['self'] = me[:3] + (me[3][:i] + (p,) + me[3][i + 1:],)
            st.heap['$at'] = p
            return [st]
        chain = []
        p = old
        for _ in range(8):
            if p == new:
                break
            chain.append(p)
            p = self.pget(st, p, 'next')
            if p is None or p == FAR:
                break
        if p != new:
            st.heap['$at'] = new
            st.ev.append(('back',))
            return [st]
        st.heap['$at'] = new
        states = [st]
        for c in chain:
            nxt = []
            for s in states:
                x = self.pget(s, c, 'ch')
                if x is None or x == NONE:
                    s.ev.append(('blind',))
                    nxt.append(s)
                    continue
                sid = x[3][0][1]
                self.age(s, sid)
                s.ev.append(('ch?', sid))
                nxt.append(s)
            states = nxt
        return states

    def age(self, st, sid):
        for i, (ty, m, o, ch) in list(st.syms.items()):
            if ty == self.char and o[0] == 'ch':
                st.syms[i] = (ty, m, ('ch', min(o[1] + 1, 4)), ch)
        ty, m, o, ch = st.syms[sid]
        st.syms[sid] = (ty, m, ('ch', 0), ch)

    # ------------------------------------------------------------ canonical form: forget what lies behind
    def canon(self, st):
        self.forget(st)
        return super().canon(st)

    def prune_locals(self, st):
        """locals that are neither live nor referred to by a value that is kept"""
        keep = []
        todo = list(st.heap.values())
        top = len(st.frames) - 1
        for d, f in enumerate(st.frames):
            self.P.prepare(f.fn)
            live = f.fn['live'][f.bb] if d == top else self.live_after_call(st, d)
            ks = {k for k in f.locals if k in live}
            keep.append(ks)
            todo.extend(f.locals[k] for k in ks)
        seen = set()
        while todo:
            v = todo.pop()
            t = v[0]
            if t == 'ref':
                b = v[1]
                if b[0] == 'L' and b[1] <= top and b[2] not in keep[b[1]] and b[2] in st.frames[b[1]].locals:
                    keep[b[1]].add(b[2])
                    todo.append(st.frames[b[1]].locals[b[2]])
            elif t in ('adt', 'tup', 'clo'):
                todo.extend(v[-1])
            elif t in ('vec', 'stk'):
                todo.extend(v[1])
            elif t in ('box', 'rv', 'not', 'dsc', 'uninitbox'):
                todo.append(v[1])
            elif t == 'again':
                todo.extend(v[2])
            elif t in ('iter', 'prim', 'cmp'):
                todo.extend(x for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
            elif t == 'sym' and v[1] not in seen:
                seen.add(v[1])
                todo.extend(c for k, c in st.syms[v[1]][3])
        for f, ks in zip(st.frames, keep):
            if len(ks) != len(f.locals):
                f.locals = {k: x for k, x in f.locals.items() if k in ks}

    def forget(self, st):
        self.prune_locals(st)
        roots = set()
        charroots = set()
        direct = set()
        seen = set()

        def visit(v):
            t = v[0]
            if t == 'cmp' and v[1][0] == 'sym' and st.syms[v[1][1]][0] == self.char:
                charroots.add(v[1][1])
            elif t == 'sym':
                e = st.syms[v[1]]
                if e[0] == POS:
                    roots.add(v[1])
                elif e[0] == self.char:
                    charroots.add(v[1])
                    direct.add(v[1])
                elif v[1] not in seen:
                    seen.add(v[1])
                    for k, c in e[3]:
                        visit(c)
            elif t in ('adt', 'tup', 'clo'):
                for x in v[-1]:
                    visit(x)
            elif t in ('vec', 'stk'):
                for x in v[1]:
                    visit(x)
            elif t in ('box', 'rv', 'not', 'dsc', 'uninitbox'):
                visit(v[1])
            elif t == 'again':
                for x in v[2]:
                    visit(x)
            elif t in ('iter', 'prim', 'cmp'):
                for x in v[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        visit(x)
        for f in st.frames:
            for v in f.locals.values():
                visit(v)
        for k, v in st.heap.items():
            visit(v)
        at = st.heap['$at'][1]
        ts = self.field(st, 'token_start_pos')
        first = []
        under = False
        if self.is_pos(st, ts) and ts[1] != at:
            p = ts[1]
            c = self.pget(st, ts, 'ch')
            under = c is not None and c != NONE and st.syms[c[3][0][1]][1] == BIT[ord('_')]
            for _ in range(2):
                n = self.pget(st, ('sym', p, ()), 'next')
                if n is None or n == FAR or n[1] == at:
                    break
                p = n[1]
                first.append(p)
            near = self.pget(st, ('sym', p, ()), 'next') == self.field(st, 'pos')
            while first and not under and not near and first[-1] not in roots:
                first.pop()
        keep = roots | set(first)
        # positions ahead
        fwd = set()
        p = at
        while p is not None and p not in fwd:
            fwd.add(p)
            n = self.pget(st, ('sym', p, ()), 'next')
            p = n[1] if n is not None and n != FAR else None
        for r in keep:
            if r in fwd:
                continue
            ty, m, o, ch = st.syms[r]
            nch = []
            intoken = r == (ts[1] if ts[0] == 'sym' else None) or r in first
            for k, c in ch:
                if k == 'next':
                    if c != FAR and c[1] != at and c[1] not in keep:
                        c = FAR
                    nch.append((k, c))
                elif k == 'ch':
                    if c == NONE or c[3][0][1] in charroots:
                        nch.append((k, c))
                    elif intoken and self.memory:
                        sm = st.syms[c[3][0][1]][1]
                        if r == ts[1]:
                            parts = COARSE if sm & WORD else [FULL]
                        elif r == first[0]:
                            parts = [COARSE[2], FULL & ~COARSE[2]]
                        else:
                            parts = [FULL]
                        nch.append((k, some(self.new_sym(st, self.char, ('past',), sum(z for z in parts if z & sm)))))
                    else:
                        nch.append(('past', NONE))
                else:
                    nch.append((k, c))
            st.syms[r] = (ty, m, o, tuple(sorted(nch)))
        for i in charroots - direct:
            e = st.syms[i]
            if e[2][0] == 'ch':
                # only what was found out about it matters
                st.syms[i] = (e[0], e[1], ('old',), e[3])

    def token_before(self, t, pos):
        def make(ty):
            t = self.P.ty(ty)
            if t and t['k'] == 'adt' and t['def'].endswith('Loc'):
                return ('adt', t['def'], 0, (TOP, ('prim', 'prev', pos)))
            return TOP
        if t is None or t['k'] != 'adt' or len(t.get('variants', ())) != 1:
            raise AnalysisError('token expected')
        return ('adt', t['def'], 0, tuple(make(f['t']) for f in t['variants'][0]['fields']))

    def exit_desc(self, st):
        ret = st.heap.pop('$ret', UNIT)
        p = st.heap.get('$tokend') or self.field(st, 'pos')
        return (self.show(st, ret), self.ahead(st, p) if self.is_pos(st, p) else (FULL | EOF, FULL | EOF), self.extent(st, ret))

    def extent(self, st, v, d=0):
        """the location in the result: ((first, last),...)"""
        if d > 8:
            return ()
        t = v[0]
        if t in ('ref', 'rv'):
            return self.extent(st, self.deref1(st, v), d + 1)
        if t == 'box':
            return self.extent(st, v[1], d + 1)
        if t == 'tup':
            return sum((self.extent(st, x, d + 1) for x in v[1]), ())
        if t == 'adt':
            if v[1].endswith('Loc') and len(v[3]) == 2:
                return (tuple('prev(%s)' % self.where(st, x[2]) if x[0] == 'prim' and x[1] == 'prev' else self.where(st, x)
                              for x in v[3]),)
            return sum((self.extent(st, x, d + 1) for x in v[3]), ())
        return ()

    # ------------------------------------------------------------ descriptions
    def where(self, st, p):
        """index of a position in the token"""
        if p == self.field(st, 'pos'):
            return 'here'
        q = self.field(st, 'token_start_pos')
        for i in range(3):
            if q == p:
                return str(i)
            if not self.is_pos(st, q):
                break
            q = self.pget(st, q, 'next')
            if q is None or q == FAR:
                break
        return '?'

    def show(self, st, v, d=0):
        t = v[0]
        if d > 8:
            return '?'
        if t in ('ref', 'rv'):
            return self.show(st, self.deref1(st, v), d + 1)
        if t == 'box':
            return self.show(st, v[1], d + 1)
        if t == 'c':
            return str(v[1])
        if t == 's':
            return repr(v[1])
        if t == 'tup':
            return '(%s)' % ','.join(self.show(st, x, d + 1) for x in v[1])
        if t == 'adt':
            if v[1].endswith('Loc'):
                return '_'
            tt = self.P.tyname
            name = self.variant_name(v)
            if v[1] == 'Annot':
                return self.show(st, v[3][0], d + 1)
            if not v[3]:
                return name
            return '%s(%s)' % (name, ','.join(self.show(st, x, d + 1) for x in v[3]))
        if t == 'sym':
            e = st.syms[v[1]]
            if e[0] == self.char:
                if e[1] & (e[1] - 1) == 0:
                    return 'c%d' % cps_of(e[1])[0]
                if e[2][0] == 'ch' and e[2][1]:
                    c = self.pget(st, self.field(st, 'token_start_pos'), 'ch')
                    if c is not None and c != NONE and c[3][0] == v:
                        return 'first'
                return 'in%d' % e[2][1] if e[2][0] == 'ch' else e[2][0]
            if e[0] == POS:
                return '@' + self.where(st, v)
            if e[1] is not None and e[0] >= 0 and not v[2]:
                n = self.P.atom_names(e[0], e[1])
                if len(n) == 1:
                    return n[0]
            return '?'
        if t == 'cmp' and v[1][0] == 'sym' and isinstance(v[2], int) and len(v) == 3:
            q = st.heap.get('$tokend') or self.field(st, 'pos')
            c = self.pget(st, q, 'ch') if self.is_pos(st, q) else None
            if c is not None and c != NONE and c[3][0] == v[1]:
                return 'next in %d' % (v[2] & st.syms[v[1][1]][1])
            return '?'
        if t == 'prim':
            k = v[1]
            if k == 'slice':
                a, b = self.where(st, v[2]), self.where(st, v[3])
                return 'text' if a == '0' and b == 'here' or v[2] == v[3] else 'slice[%s,%s]' % (a, b)
            if k == 'val':
                return 'val(%s)' % ','.join(str(x) for x in self.valdesc(st, v))
            if k in ('buf', 'far', 'hpos', 'code', 'flt'):
                return k
            if k == 'chs':
                return 'chs(%s)' % self.show(st, v[2], d + 1)
            if k == 'num':
                return 'num(%s,%s)' % (v[2], self.show(st, v[3], d + 1))
            if k == 'fmt':
                return 'fmt(%s)' % ','.join(self.show(st, x, d + 1) for x in v[2][1])
            if k == 'arg':
                return '%s:%s' % (v[2], self.show(st, v[3], d + 1))
            if k == 'ord':
                return 'ord(%s)' % self.show(st, v[2], d + 1)
        return '?'

    def variant_name(self, v):
        for t in self.P.types:
            if t['k'] == 'adt' and t.get('def') == v[1] and t.get('variants'):
                return t['variants'][v[2]]['name']
        return '%s#%d' % (v[1], v[2])

    def valdesc(self, st, v):
        _, _, base, n, end, off, rng = v
        return (base if n > 1 else 0, n, 'here' if end == self.field(st, 'pos') else 'away', off, rng)

    # ------------------------------------------------------------ values
    def cast(self, st, r, v):
        if v[0] == 'sym' and st.syms[v[1]][0] == self.char:
            return ('prim', 'ord', v)
        if v[0] == 'prim' and v[1] in ('val', 'ord', 'dig'):
            return v
        return super().cast(st, r, v)

    def digit(self, st, sym, off):
        """value of character - off"""
        m = st.syms[sym[1]][1]
        good = all(chr(c).isalnum() and c < 128 and int(chr(c), 36) == c - off for c in cps_of(m))
        if not good:
            return ('prim', 'dig', sym, off)
        at = st.heap['$at']
        o = st.syms[sym[1]][2]
        if o == ('ch', 0):
            return ('prim', 'val', 0, 1, at, 0, '')
        p = at
        for _ in range(4):
            c = self.pget(st, p, 'ch')
            if c is None or c == NONE:
                break
            if c[3][0] == sym:
                return ('prim', 'val', 0, 1, self.nextp(st, p), 0, '')
            p = self.nextp(st, p)
        if o[0] == 'ch':
            return ('prim', 'val', 0, 1, ('prim', 'age', o[1]), 0, '')
        return ('prim', 'dig', sym, off)

    def arith(self, st, op, a, b):
        """sums of numbers read from the text"""
        if op == 'Add' and (a[0] == 'prim' and a[1] == 'dig' or b[0] == 'prim' and b[1] == 'dig'):
            if b[0] == 'prim' and b[1] == 'dig':
                a, b = b, a
            if b[0] == 'c':
                return self.digit(st, a[2], a[3] - b[1])
            return TOP
        if op in ('Sub', 'Add') and a[0] == 'prim' and a[1] == 'ord' and b[0] == 'c':
            return self.digit(st, a[2], b[1] if op == 'Sub' else -b[1])
        if op == 'Sub' and a[0] == 'prim' and a[1] == 'dig' and b[0] == 'c':
            return self.digit(st, a[2], a[3] + b[1])
        if op in ('Mul', 'Shl', 'BitOr') or op == 'Add':
            if a[0] == 'c' and b[0] == 'prim':
                a, b = b, a
            if op == 'Shl':
                b = ('c', 1 << b[1]) if b[0] == 'c' and 0 <= b[1] < 8 else TOP
                op = 'Mul'
            if op == 'BitOr':
                op = 'Add'
            if a[0] == 'prim' and a[1] == 'val' and b[0] == 'c':
                if op == 'Mul':
                    if b[1] == 1:
                        return a
                    return ('prim', 'mul', b[1], a)
                if b[1] == 0:
                    return a
                return a[:5] + (a[5] + b[1], '')
            for x, y in ((a, b), (b, a)):
                if op == 'Add' and x[0] == 'prim' and x[1] == 'mul' and y[0] == 'prim' and y[1] == 'val' and y[3] == 1:
                    base, v = x[2], x[3]
                    if v[5] or y[5] or v[2] not in (0, base):
                        return TOP
                    if self.is_pos(st, v[4]) and self.is_pos(st, y[4]) and self.pget(st, v[4], 'next') == y[4]:
                        return ('prim', 'val', base, min(v[3] + 1, 10), y[4], 0, '')
                    if v[4][0] == 'prim' and v[4][1] == 'age' and self.is_pos(st, y[4]):
                        # the first digit was read earlier: it must be the one right before the second
                        if y[4] == self.field(st, 'pos') and v[4][2] == 1 or \
                                self.pget(st, self.field(st, 'pos'), 'next') == y[4] and v[4][2] == 0:
                            return ('prim', 'val', base, min(v[3] + 1, 10), y[4], 0, '')
        return TOP

    def binop(self, st, op, a, b, r):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        wrap = (lambda v: ('tup', (v, ('c', 0)))) if op.endswith('WithOverflow') else (lambda v: v)
        if op == 'MulWithOverflow':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'prim' and x[1] == 'val' and y[0] == 'c' and not x[5] and x[2] in (0, y[1]):
                    top = y[1] ** x[3] - 1
                    if x[6].startswith('<'):
                        top = min(top, int(x[6][1:]) - 1)
                    bits = (self.P.ty(r[4]) or {}).get('bits', 64) if len(r) > 4 else 32
                    if bits >= 32 and top * y[1] >= 1 << bits:
                        st.ev.append(('panic', 'overflow', st.frames[-1].fn['path']))
        if self.is_pos(st, a) and base in ('Add', 'Sub'):
            if base == 'Add':
                return wrap(self.advance(st, a, b))
            return wrap(('prim', 'prev', a) if b == ('c', 1) else TOP)
        if a[0] == 'prim' and a[1] == 'prev' and base == 'Add' and b == ('c', 1):
            return wrap(a[2])
        if self.is_pos(st, b) and base == 'Add':
            return wrap(self.advance(st, b, a))
        if base in self.CMP:
            for x, y, f in ((a, b, self.CMP[base]), (b, a, lambda p, q, g=self.CMP[base]: g(q, p))):
                if y[0] != 'c':
                    continue
                if x[0] == 'sym' and st.syms[x[1]][0] == self.char:
                    return ('cmp', x, mask_of(lambda c: f(c, y[1])))
                if x[0] == 'prim' and x[1] == 'ord':
                    return ('cmp', x[2], mask_of(lambda c: f(c, y[1])))
                if x[0] == 'prim' and x[1] == 'val':
                    # value >= limit?
                    lim = {(1, 0): y[1], (0, 1): y[1] + 1}
                    lo, eq, hi = f(y[1] - 1, y[1]), f(y[1], y[1]), f(y[1] + 1, y[1])
                    if lo != eq and eq == hi:
                        return ('cmp', x, y[1], 1 if hi else 0)
                    if lo == eq and eq != hi:
                        return ('cmp', x, y[1] + 1, 1 if hi else 0)
                    return TOP
            if a == ('prim', 'hpos') and self.is_pos(st, b) or b == ('prim', 'hpos') and self.is_pos(st, a):
                # whether the end of the pending here documents lies ahead
                gt = self.CMP[base](1, 0) if a == ('prim', 'hpos') else self.CMP[base](0, 1)
                lt = self.CMP[base](0, 1) if a == ('prim', 'hpos') else self.CMP[base](1, 0)
                if gt != lt and (b if a == ('prim', 'hpos') else a) == self.field(st, 'pos'):
                    return ('cmp', ('prim', 'hpos'), 0, 1 if gt else 0)
                return TOP
            if self.is_pos(st, a) and self.is_pos(st, b):
                o = self.order(st, a, b)
                return cbool(self.CMP[base](o, 0)) if o is not None else TOP
            if base in ('Eq', 'Ne') and a[0] == 'sym' and b[0] == 'sym' and st.syms[a[1]][0] == self.char == st.syms[b[1]][0]:
                x = self.same_char(st, a, b)
                if x is not None:
                    return cbool(x == (base == 'Eq'))
                for p, q in ((a, b), (b, a)):
                    m = st.syms[q[1]][1]
                    if m & (m - 1) == 0:
                        return ('cmp', p, m if base == 'Eq' else FULL & ~m)
                st.ev.append(('imprecise',))
                return TOP
        if base in ('Add', 'Sub', 'Mul') and a[0] == 'c' and b[0] == 'c':
            n = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[base]
            top = self.limit(st.frames[-1].fn)
            if a[1] <= top and b[1] <= top and n > top or n < -1:
                st.heap['$deep'] = ('c', 1)
            return wrap(('c', n))
        if base in ('Add', 'Sub', 'Mul', 'Shl', 'BitOr') and (a[0] == 'prim' or b[0] == 'prim'):
            return wrap(self.arith(st, base, a, b))
        return super().binop(st, op, a, b, r)

    def limit(self, fn):
        """counters are exact up to the largest small constant they are compared with; deeper paths are not explored"""
        r = self._limits.get(fn['path'])
        if r is None:
            r = 2
            for b in fn['blocks']:
                for c in consts_in(b):
                    if r <= c < MAXINT:
                        r = c + 1
                for x in b['s']:
                    if x[0] == '=' and x[2][0] == 'bin' and str(x[2][1]).startswith(('Mul', 'Shl')):
                        # accumulates digits: followed until the number exceeds 32 bits
                        r = max(r, 10)
            self._limits[fn['path']] = r
        return r

    def order(self, st, a, b):
        if a == b:
            return 0
        for x, y, o in ((a, b, -1), (b, a, 1)):
            p = x
            for _ in range(8):
                p = self.pget(st, p, 'next')
                if p is None or p == FAR:
                    break
                if p == y:
                    return o
        here = self.field(st, 'pos')
        if b == here:
            return -1
        if a == here:
            return 1
        return None

    def same_char(self, st, a, b):
        if a == b:
            return True
        x, y = st.syms[a[1]][1], st.syms[b[1]][1]
        if not x & y:
            return False
        if x == y and x & (x - 1) == 0:
            return True
        return None

    def advance(self, st, p, n):
        """position n bytes after p"""
        if n[0] == 'prim' and n[1] == 'len8':
            c = self.pget(st, p, 'ch')
            if c is not None and c != NONE and c[3][0] == n[2]:
                return self.nextp(st, p)
            if c is not None and c != NONE and st.syms[c[3][0][1]][1] | st.syms[n[2][1]][1] <= ASCII:
                return self.nextp(st, p)
            return TOP
        if n[0] == 'c' and 0 <= n[1] <= 4:
            for _ in range(n[1]):
                c = self.pget(st, p, 'ch')
                if c is None or c == NONE:
                    return TOP
                m = st.syms[c[3][0][1]][1]
                if m & ~ASCII:
                    st.ev.append(('split',))
                p = self.nextp(st, p)
            return p
        return TOP

    def run(self, st):
        p = st.heap.pop('$pend', None)
        if p is not None:
            st.ev.insert(0, ('ch?', p[1]))
        out = []
        for kind, s in super().run(st):
            if '$deep' in s.heap:
                self.pruned = getattr(self, 'pruned', 0) + 1
                continue
            out.extend((kind, x) for x in self.resolve_events(kind, s))
        return out

    def resolve_events(self, kind, st):
        """the characters consumed are final once nothing refers to them any more; the others are split into classes"""
        todo = [st]
        out = []
        while todo:
            s = todo.pop()
            ks = [i for i, e in enumerate(s.ev) if e[0] == 'ch?']
            again = False
            if ks and self.memory:
                # what is remembered of a character is what its class says
                for i in ks:
                    sid = s.ev[i][1]
                    m = s.syms[sid][1]
                    cl = [k & m for k in self.remembered(s, sid) if k & m]
                    if len(cl) > 1:
                        for k in cl:
                            y = s.copy()
                            self.refine(y, sid, k)
                            todo.append(y)
                        again = True
                        break
                if again:
                    continue
            if ks and kind == 'node':
                self.forget(s)
                live = self.live_chars(s)
            else:
                live = ()
            for i in ks:
                sid = s.ev[i][1]
                if sid in live:
                    if i == len(s.ev) - 1:
                        s.ev.pop()
                        s.heap['$pend'] = ('sym', sid, ())
                        continue
                    m = s.syms[sid][1]
                    cl = [k & m for k in self.classes(s, sid) if k & m]
                    if len(cl) > 1:
                        for k in cl:
                            y = s.copy()
                            self.refine(y, sid, k)
                            todo.append(y)
                        again = True
                        break
                s.ev[i] = ('ch', s.syms[sid][1])
            if not again:
                out.append(s)
        return out

    def remembered(self, st, sid):
        p = self.field(st, 'token_start_pos')
        for parts in (COARSE, [COARSE[2], FULL & ~COARSE[2]]):
            if not self.is_pos(st, p):
                break
            c = self.pget(st, p, 'ch')
            if c is None or c == NONE:
                break
            if c[3][0][1] == sid:
                return parts if parts is not COARSE or st.syms[sid][1] & WORD else ()
            if st.syms[c[3][0][1]][1] != BIT[ord('_')]:
                break
            p = self.pget(st, p, 'next')
            if p is None or p == FAR:
                break
        return ()

    def classes(self, st, sid):
        if self.root.endswith('_token'):
            p = self.field(st, 'token_start_pos')
            c = self.pget(st, p, 'ch') if self.is_pos(st, p) else None
            if c is not None and c != NONE and c[3][0][1] == sid:
                return FIRST
        return CLASSES

    def live_chars(self, st):
        out = set()
        seen = set()

        def visit(v):
            t = v[0]
            if t == 'sym':
                if v[1] in seen:
                    return
                seen.add(v[1])
                e = st.syms[v[1]]
                if e[0] == self.char:
                    out.add(v[1])
                for k, c in e[3]:
                    visit(c)
            elif t in ('adt', 'tup', 'clo'):
                for x in v[-1]:
                    visit(x)
            elif t in ('vec', 'stk'):
                for x in v[1]:
                    visit(x)
            elif t in ('box', 'rv', 'not', 'dsc', 'uninitbox'):
                visit(v[1])
            elif t == 'again':
                for x in v[2]:
                    visit(x)
            elif t in ('iter', 'prim', 'cmp'):
                for x in v[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        visit(x)
        for f in st.frames:
            for v in f.locals.values():
                visit(v)
        for v in st.heap.values():
            visit(v)
        return out

    def compare(self, st, a, b):
        a = self.deref(st, a)
        b = self.deref(st, b)
        if a[0] == 'sym' and b[0] == 'sym' and st.syms[a[1]][0] == self.char == st.syms[b[1]][0]:
            x = self.same_char(st, a, b)
            if x is not None:
                return [(x, [])]
            for p, q in ((a, b), (b, a)):
                m, n = st.syms[p[1]][1], st.syms[q[1]][1]
                if n & (n - 1) == 0:
                    return [(True, [(p[1], m & n)]), (False, [(p[1], m & ~n)])]
            st.ev.append(('imprecise',))
            return [(True, []), (False, [])]
        return super().compare(st, a, b)

    def do_eq(self, st, a, b, neg):
        x, y = self.deref(st, a), self.deref(st, b)
        if y[0] == 'prim' and y[1] == 'slice' and x[0] == 's':
            x, y = y, x
        if x[0] == 'prim' and x[1] == 'slice':
            if y[0] == 's':
                return self.text_is(st, x, y[1], neg)
            if x[2] != x[3]:
                st.ev.append(('cmptext',))
            return [(st.copy(), cbool(not neg)), (st, cbool(neg))]
        return super().do_eq(st, a, b, neg)

    def text_begins(self, st, p, pat):
        """whether the text from position p begins with these characters"""
        out, here = [], [(st, p)]
        for ch in pat:
            m = mask_of(lambda c: c == ord(ch))
            nxt = []
            for s, q in here:
                if not self.is_pos(s, q):
                    s.ev.append(('unknown', 'text'))
                    out += [(s.copy(), cbool(True)), (s, cbool(False))]
                    continue
                for s2, c in self.read_cell(s, q):
                    if c == NONE:
                        out.append((s2, cbool(False)))
                        continue
                    have = s2.syms[c[3][0][1]][1]
                    if have & ~m:
                        s3 = s2.copy()
                        self.refine(s3, c[3][0][1], have & ~m)
                        out.append((s3, cbool(False)))
                    if have & m:
                        self.refine(s2, c[3][0][1], have & m)
                        nxt.append((s2, self.nextp(s2, q)))
            here = nxt
        return out + [(s, cbool(True)) for s, _ in here]

    def text_is(self, st, sl, text, neg):
        d = self.show(st, sl)
        if d != 'text':
            st.ev.append(('unknown', 'text'))
            return [(st.copy(), cbool(not neg)), (st, cbool(neg))]
        yes = st.heap.get('$is')
        if yes is not None:
            return [(st, cbool((yes[1] == text) != neg))]
        no = st.heap.get('$isnot', ('tup', ()))
        c = self.pget(st, self.field(st, 'token_start_pos'), 'ch')
        if c == NONE or c is not None and text and not st.syms[c[3][0][1]][1] & BIT.get(ord(text[0]), 0):
            st.ev.append(('is', text, 0))
            return [(st, cbool(neg))]
        if ('s', text) in no[1]:
            return [(st, cbool(neg))]
        s2 = st.copy()
        s2.heap['$is'] = ('s', text)
        s2.heap.pop('$isnot', None)
        s2.ev.append(('is', text, 1))
        st.heap['$isnot'] = ('tup', tuple(sorted(no[1] + (('s', text),))))
        st.ev.append(('is', text, 0))
        return [(s2, cbool(not neg)), (st, cbool(neg))]

    def switch_special(self, st, v, neg, cases, other):
        if v[0] != 'cmp':
            return None
        x = v[1]
        if x[0] == 'sym':
            m = st.syms[x[1]][1]
            groups = {1 ^ neg: m & v[2], 0 ^ neg: m & ~v[2]}
            return self._fork_sym(st, x[1], groups, cases, other)
        if x == ('prim', 'hpos'):
            outs = []
            for look in (0, 1):
                if look and '$hdone' in st.heap:
                    continue
                s = st.copy()
                if not look:
                    s.heap['$hdone'] = ('c', 1)
                s.ev.append(('hlook', look))
                val = (v[3] if look else 1 - v[3]) ^ neg
                outs.append((s, self.target(val, cases, other)))
            return outs
        if x[0] == 'prim' and x[1] == 'val':
            base, n, end, off, rng = x[2], x[3], x[4], x[5], x[6]
            lim = v[2]
            top = (max(base, 10) if n > 1 else 16) ** n - 1 + off
            if base == 0 and n == 1:
                top = 35
            outs = []
            for ge in (0, 1):
                if ge and (top < lim or rng == '<%d' % lim):
                    continue
                if not ge and (lim <= off or rng == '>=%d' % lim):
                    continue
                s = st.copy()
                if top >= lim > off:
                    self.replace_val(s, x, x[:6] + (('>=%d' if ge else '<%d') % lim,))
                val = (v[3] if ge else 1 - v[3]) ^ neg
                outs.append((s, self.target(val, cases, other)))
            return outs
        return None

    def target(self, val, cases, other):
        for c, bb in cases:
            if int(c) == val:
                return bb
        return other

    def replace_val(self, st, old, new):
        def go(v, d=0):
            if v == old:
                return new
            if d < 6 and v[0] in ('adt', 'tup'):
                return v[:-1] + (tuple(go(x, d + 1) for x in v[-1]),)
            return v
        for f in st.frames:
            for k, v in f.locals.items():
                f.locals[k] = go(v)

    # ------------------------------------------------------------ constants with calls (ranges)
    def eval_const_body(self, st, body):
        r = super().eval_const_body(st, body)
        if r == TOP and len(body['blocks']) >= 1:
            t = body['blocks'][0]['t']
            if t[0] == 'call' and t[1][0] == 'const' and norm(t[1][1].get('fn', '')).endswith('RangeInclusive::new'):
                a = [self.const(st, o[1], body) if o[0] == 'const' else TOP for o in t[2]]
                r = ('rv', ('adt', 'std::ops::RangeInclusive', 0, tuple(a)))
                self._cc[id(body)] = r
        return r

    # ------------------------------------------------------------ calls
    def call(self, st, name, info, argv, t):
        P = self.P
        fn = P.fns.get(name)
        if fn is None or fn.get('derived'):
            r = self.external(st, name, info, argv, t)
            if r is not None:
                return r
            if fn is None:
                st.ev.append(('unknown', name))
                for a in argv:
                    self.havoc_ref(st, a, name)
                return [(st, self.fresh(st, t[5], ('ext', short(name))))]
        if any(f.fn['path'] == name for f in st.frames) or len(st.frames) > 12:
            st.ev.append(('unknown', name))
            return [(st, TOP)]
        if short(name).startswith('error_') and self.P.tdef(t[5]) == 'parser::lexer::LexerErr':
            # the text of the message does not matter
            eof = None
            if short(name) == 'error_unexpected' and argv[-1] == self.field(st, 'pos'):
                eof = self.ahead(st, argv[-1], 1)[0]
            kind = 'UnexpectedEOF' if short(name) == 'error_eof' or eof == EOF else 'error'
            return [(st, ('adt', 'parser::lexer::LexerErr', 0, (('s', kind), TOP)))]
        return [self.push_call(st, fn, argv, ('place', t[3]), t[4])]

    def special_args(self, st, argv):
        for a in argv:
            x = self.deref(st, a)
            if x[0] == 'prim' or x[0] == 'sym' and st.syms[x[1]][0] in (self.char, POS):
                return True
        return False

    def chr_arg(self, st, v):
        x = self.deref(st, v)
        if x[0] == 'sym' and st.syms[x[1]][0] == self.char or x[0] == 'c':
            return x
        return None

    def push(self, st, loc, what, v):
        cur = self.read_loc(st, loc)
        nm = self.ahead(st, self.field(st, 'pos'), 1)[0]
        if cur[0] == 'prim' and cur[1] == 'chs':
            st.ev.append(('push', 'char', self.show(st, cur[2]), nm))
        elif cur[0] == 's':
            for c in cur[1]:
                st.ev.append(('push', 'char', 'c%d' % ord(c), nm))
        if what == 'char' and v[0] == 'c':
            d = 'c%d' % v[1]
        else:
            d = self.show(st, v)
        if what == 'str' and v[0] == 's':
            for c in v[1]:
                st.ev.append(('push', 'char', 'c%d' % ord(c), nm))
        else:
            st.ev.append(('push', what, d, nm))
        self.write_loc(st, loc, ('prim', 'buf'))
        return [(st, UNIT)]

    def is_buf(self, v):
        return v[0] == 'prim' and v[1] in ('buf', 'chs', 'fmt') or v[0] == 's'

    def external(self, st, name, info, argv, t):
        n = norm(name)
        trait = norm(info['fn'])
        last = n.rsplit('::', 1)[-1]
        A = argv
        x = self.deref(st, A[0]) if A else TOP
        # ---- characters
        if last in PREDM and len(A) == 1:
            if x[0] == 'c':
                return [(st, cbool(PRED[last](x[1])))]
            if x[0] == 'sym' and st.syms[x[1]][0] == self.char:
                return [(st, ('cmp', x, PREDM[last]))]
        if last == 'len_utf8' and x[0] == 'sym':
            return [(st, ('prim', 'len8', x))]
        if last == 'len_utf8' and x[0] == 'c':
            return [(st, ('c', len(chr(x[1]).encode())))]
        if last in ('to_digit', 'is_digit') and x[0] == 'sym' and A[1][0] == 'c':
            m = mask_of(lambda c: c < 128 and chr(c).isalnum() and int(chr(c), 36) < A[1][1])
            if last == 'is_digit':
                return [(st, ('cmp', x, m))]
            have = st.syms[x[1]][1]
            out = []
            if have & ~m:
                s = st.copy()
                self.refine(s, x[1], have & ~m)
                out.append((s, NONE))
            for part in (PREDM['is_ascii_digit'], PREDM['is_ascii_lowercase'], PREDM['is_ascii_uppercase']):
                if have & m & part:
                    s = st.copy()
                    self.refine(s, x[1], have & m & part)
                    off = 48 if part == PREDM['is_ascii_digit'] else 87 if part == PREDM['is_ascii_lowercase'] else 55
                    out.append((s, some(self.digit(s, x, off))))
            return out
        if last == 'from_u32' and x[0] in ('prim', 'c'):
            if x[0] == 'c' or x[1] == 'val' and (x[6].startswith('<') and int(x[6][1:]) <= 0xd800 or x[3] < 4):
                return [(st, some(x))]
            s2 = st.copy()
            s2.gs = 0 if x[1] == 'val' and not x[6] else 1
            return [(s2, NONE), (st, some(x))]
        if last in ('contains',) and x[0] == 'adt' and x[1] in ('std::ops::RangeInclusive', 'std::ops::Range') and len(A) == 2:
            y = self.deref(st, A[1])
            lo, hi = x[3][0], x[3][1]
            if lo[0] == 'c' and hi[0] == 'c':
                h = hi[1] if x[1].endswith('RangeInclusive') else hi[1] - 1
                if y[0] == 'c':
                    return [(st, cbool(lo[1] <= y[1] <= h))]
                if y[0] == 'sym' and st.syms[y[1]][0] == self.char:
                    return [(st, ('cmp', y, mask_of(lambda c: lo[1] <= c <= h)))]
        if n.endswith('RangeInclusive::new'):
            return [(st, ('adt', 'std::ops::RangeInclusive', 0, tuple(A)))]
        # ---- text
        if x == ('prim', 'code') and (last in ('get', 'index') or trait.startswith('std::ops::Index')):
            r = A[1]
            res = None
            if r[0] == 'adt' and r[1] == 'std::ops::RangeFrom' and self.is_pos(st, r[3][0]):
                res = ('rv', ('prim', 'text', r[3][0]))
            elif r[0] == 'adt' and r[1] == 'std::ops::Range' and self.is_pos(st, r[3][0]) and self.is_pos(st, r[3][1]):
                res = ('rv', ('prim', 'slice', r[3][0], r[3][1]))
            if res is not None:
                return [(st, some(res) if last == 'get' else res)]
            st.ev.append(('unknown', 'text'))
            return [(st, self.fresh(st, t[5], ('ext',)) if last == 'get' else ('rv', TOP))]
        if last == 'chars' and x[0] == 'prim' and x[1] == 'text':
            return [(st, ('prim', 'chars', x[2], ('prim', 'noend')))]
        if last == 'chars' and x[0] == 'prim' and x[1] == 'slice':
            return [(st, ('prim', 'chars', x[2], x[3]))]
        if last == 'next' and x[0] == 'prim' and x[1] == 'chars':
            loc = self.deref_loc(st, A[0])
            p, end = x[2], x[3]
            if p == end:
                return [(st, NONE)]
            if not self.is_pos(st, p):
                st.ev.append(('imprecise',))
                return [(st.copy(), NONE), (st, some(self.new_sym(st, self.char, ('past',))))]
            out = []
            for s, c in self.read_cell(st, p):
                if c != NONE:
                    nx = self.pget(s, p, 'next')
                    if nx is None or nx == FAR:
                        nx = ('prim', 'far')
                    self.write_loc(s, loc, ('prim', 'chars', nx, end))
                out.append((s, c))
            return out
        if last in ('next_back', 'last', 'nth', 'rev', 'count', 'skip') and x[0] == 'prim' and x[1] == 'chars':
            st.ev.append(('unknown', last))
        if last == 'is_empty' and x[0] == 'adt' and x[1] == 'std::ops::Range':
            a, b = x[3][0], x[3][1]
            if self.is_pos(st, a) and self.is_pos(st, b):
                return [(st, cbool(a == b))]
        if last == 'is_empty' and x[0] == 'prim' and x[1] == 'slice':
            return [(st, cbool(x[2] == x[3]))]
        if last in ('starts_with', 'ends_with', 'contains', 'trim_start', 'trim', 'trim_end', 'strip_prefix', 'find', 'split',
                    'eq_ignore_ascii_case', 'bytes', 'len', 'char_indices') and x[0] == 'prim' and x[1] in ('slice', 'text'):
            y = self.deref(st, A[1]) if last == 'starts_with' and len(A) == 2 else TOP
            if y[0] == 's' and x[1] == 'slice' and self.show(st, x) == 'text' and st.heap.get('$is') is None:
                s2 = st.copy()
                s2.ev.append(('prefix', y[1], 1))
                st.ev.append(('prefix', y[1], 0))
                return [(s2, cbool(True)), (st, cbool(False))]
            if last == 'starts_with' and x[1] == 'text' and self.is_pos(st, x[2]) and len(A) == 2:
                z = self.deref(st, A[1])
                pat = z[1] if z[0] == 's' else chr(z[1]) if z[0] == 'c' else None
                if pat is not None and len(pat) <= 4:
                    return self.text_begins(st, x[2], pat)
            st.ev.append(('cmptext',))
            return [(st, self.fresh(st, t[5], ('ext', last)))]
        # ---- numbers
        if last == 'parse_bytes' and len(A) == 2:
            b = self.deref(st, A[0])
            return [(st, some(('prim', 'num', A[1][1] if A[1][0] == 'c' else '?', b)))]
        if last in ('to_i64', 'to_i32', 'to_u32', 'to_u64') and x[0] == 'prim' and x[1] == 'num':
            s2 = st.copy()
            s2.ev.append(('fits', last, 0))
            s2.gs = 0
            st.ev.append(('fits', last, 1))
            return [(s2, NONE), (st, some(x))]
        if last in ('parse', 'from_str') and self.is_buf(x):
            if 'f64' not in str(t[1]) and any(k in str(t[1]) for k in ('i64', 'u64', 'i32', 'u32', 'usize')):
                # digits may be too many
                s2 = st.copy()
                s2.gs = 0
                st.gs = 0
                return [(s2, err(TOP)), (st, ok(('prim', 'num', 10, x)))]
            return [(st, ok(('prim', 'num', 'f', x)))]
        if last in ('from_str_radix', 'from_str') and x[0] == 'prim':
            st.ev.append(('unknown', last))
        if last in ('saturating_mul', 'wrapping_mul') and len(A) == 2:
            if A[0][0] == 'c' and A[1][0] == 'c':
                return [(st, ('c', A[0][1] * A[1][1]))]
            return [(st, self.arith(st, 'Mul', A[0], A[1]))]
        if last in ('saturating_add', 'wrapping_add') and len(A) == 2:
            if A[0][0] == 'c' and A[1][0] == 'c':
                return [(st, ('c', A[0][1] + A[1][1]))]
            return [(st, self.arith(st, 'Add', A[0], A[1]))]
        if n in ('std::cmp::max', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::Ord::min') or last in ('max', 'min'):
            if last == 'max' and len(A) == 2 and ('prim', 'hpos') in A:
                p = A[0] if A[1] == ('prim', 'hpos') else A[1]
                if p == self.field(st, 'pos') and self.is_pos(st, p):
                    s2 = st.copy()
                    st.ev.append(('hlook', 0))
                    st.heap['$hdone'] = ('c', 1)
                    if '$hdone' in s2.heap:
                        return [(st, p)]
                    s2.ev.append(('hlook', 1))
                    return [(st, p), (s2, ('prim', 'hpos'))]
            for x, y in ((A[0], A[-1]), (A[-1], A[0])):
                # the last byte before y, or x if nothing lies between x and y
                if y[0] == 'prim' and y[1] == 'prev' and self.is_pos(st, x):
                    if x == y[2]:
                        return [(st, x if last == 'max' else y)]
                    q = x
                    for _ in range(6):
                        q = self.pget(st, q, 'next') if q and self.is_pos(st, q) else None
                        if q == y[2]:
                            return [(st, y if last == 'max' else x)]
                    if x == self.field(st, 'token_start_pos') and y[2] == self.field(st, 'pos'):
                        return [(st, y if last == 'max' else x)]
            return [(st, TOP)]
        # ---- strings being built
        if last == 'new' and n == 'std::string::String::new':
            return [(st, ('s', ''))]
        if last in ('to_string', 'to_owned', 'into', 'from', 'clone', 'to_vec') and len(A) == 1:
            if x[0] == 'sym' and st.syms[x[1]][0] == self.char and self.P.tdef(t[5]) == 'std::string::String':
                return [(st, ('prim', 'chs', x))]
            if (x[0] == 'c' or x[0] == 'prim' and x[1] == 'val') and (self.P.ty(t[5]) or {}).get('def') == 'std::string::String' \
                    and last == 'to_string':
                return [(st, ('prim', 'chs', x))]
            if x[0] in ('s',) or x[0] == 'prim' and x[1] in ('slice', 'buf', 'chs', 'fmt', 'text'):
                td = self.P.ty(t[5])
                f = self.P.fns.get('<%s as std::convert::From<std::string::String>>::from' % (td or {}).get('def'))
                if last == 'into' and f is not None:
                    return [self.push_call(st, f, [x], ('place', t[3]), t[4])]
                if td and td['k'] == 'adt' and (td.get('local') or td.get('def', '').split('::')[0] not in ('std', 'core', 'alloc')):
                    return None          # conversion into a type of the crate: analysed
                return [(st, x)]
        if last in ('encode_utf8',) and x[0] in ('sym', 'c'):
            return [(st, ('rv', ('prim', 'chs', x)))]
        if last in ('as_bytes', 'as_str', 'deref', 'as_ref', 'into_bytes', 'as_mut_str', 'borrow', 'into_boxed_str') \
                and (self.is_buf(x) or x[0] == 'prim' and x[1] == 'slice'):
            return [(st, A[0] if last != 'into_bytes' else x)]
        if last == 'from_utf8' and self.is_buf(x):
            return [(st.copy(), err(TOP)), (st, ok(x))]
        if last in ('push', 'push_str', 'extend_from_slice', 'add_assign') and len(A) == 2:
            loc = self.deref_loc(st, A[0])
            cur = self.read_loc(st, loc)
            if self.is_buf(cur) or cur == ('vec', ()):
                y = self.deref(st, A[1])
                if y[0] == 'prim' and y[1] == 'chs':
                    return self.push(st, loc, 'char', y[2])
                if last == 'push':
                    byte = cur == ('vec', ()) or n.startswith('std::vec')
                    return self.push(st, loc, 'byte' if byte else 'char', y)
                return self.push(st, loc, 'str', y)
        if last in ('pop', 'clear', 'truncate', 'insert', 'remove', 'insert_str', 'retain') and self.is_buf(x):
            st.ev.append(('push', last, '', 0))
            self.write_loc(st, self.deref_loc(st, A[0]), ('prim', 'buf'))
            return [(st, self.fresh(st, t[5], ('ext', last)))]
        # ---- formatting
        if n.startswith('core::fmt::rt::Argument'):
            return [(st, ('prim', 'arg', last, x))]
        if n.startswith('std::fmt::Arguments'):
            a = self.deref(st, A[-1]) if A else TOP
            return [(st, ('prim', 'fmt', ('tup', a[1] if a[0] == 'vec' else ())))]
        if n in ('std::fmt::format', 'std::hint::must_use'):
            return [(st, A[0])]
        # ---- enumeration of a type
        if n == 'enum_iterator::all':
            g = info.get('targs') or []
            ty = info.get('res_targs') or g
            if ty and self.P.is_enum(ty[0]):
                return [(st, ('iter', 'enum', ty[0], 0))]
        if trait == 'std::iter::IntoIterator::into_iter' and x[0] == 'adt' and x[1] in ('std::ops::Range', 'std::ops::RangeInclusive') \
                and x[3][0][0] == 'c' and x[3][1][0] == 'c':
            return [(st, ('iter', 'range', x[3][0][1], x[3][1][1] + (1 if x[1].endswith('Inclusive') else 0)))]
        if last == 'next' and x[0] == 'iter' and x[1] in ('range', 'enum'):
            loc = self.deref_loc(st, A[0])
            st.ev.append(('iter',))
            if x[1] == 'range':
                if x[2] >= x[3]:
                    return [(st, NONE)]
                self.write_loc(st, loc, ('iter', 'range', x[2] + 1, x[3]))
                return [(st, some(('c', x[2])))]
            vs = self.P.types[x[2]]['variants']
            if x[3] >= len(vs):
                return [(st, NONE)]
            self.write_loc(st, loc, ('iter', 'enum', x[2], x[3] + 1))
            return [(st, some(('adt', self.P.types[x[2]]['def'], x[3], ())))]
        if trait == 'std::iter::IntoIterator::into_iter' and x[0] == 'iter':
            return [(st, x)]
        if last in ('find', 'find_map', 'position', 'any', 'all') and x[0] == 'iter' and x[1] in ('enum', 'range'):
            r = self.iter_search(st, last, A, t)
            if r is not None:
                return r
        if last in ('is_some_and', 'is_none_or', 'map_or', 'filter', 'is_ok_and') and A and len(A) >= 2:
            r = super().external(st, name, info, argv, t)
            return r
        if n == 'std::mem::take' and x[0] == 'adt' and x[1].endswith('RubyString'):
            loc = self.deref_loc(st, A[0])
            self.write_loc(st, loc, ('adt', x[1], x[2], (('s', ''),)))
            return [(st, x)]
        r = super().external(st, name, info, argv, t)
        if r is not None and self.special_args(st, argv) and self.pure_external(n, trait, last) and \
                not trait.startswith(('std::cmp::', 'std::ops::Deref', 'std::convert', 'std::iter', 'std::ops::Try', 'std::clone')) and \
                not n.startswith(('std::option', 'std::result', 'std::mem', 'std::vec', 'std::fmt', 'core::fmt', 'std::boxed')):
            for item in r:
                if item[0] not in ('frame', 'dead') and item[1] != UNIT:
                    item[0].ev.append(('unknown', n))
        return r

    def iter_search(self, st, last, A, t):
        return None if not (A and A[0][0] in ('ref', 'iter')) else super().iter_search(st, last, A, t)

    def ctor_value(self, name, args):
        n = norm(name)
        if n.startswith('std::prelude') and len(args) == 1:
            f = {'Some': some, 'Ok': ok, 'Err': err}.get(short(n))
            if f:
                return f(args[0])
        return super().ctor_value(n, args)

    def into(self, st, v, destty, t):
        x = super().into(st, v, destty, t)
        if x == TOP and self.is_buf(v):
            return v
        return x
