"""Token grammars: automata of the analysed functions and of the reference grammar, and their comparison.

Symbols of the automata
  ('t', name)                a consumed token
  ('n', name, cargs)         a parsing function
  ('x', ...)                 a character level operation of the lexer (scan) or a test on characters (look)
  ('b', where)               backtracking
Line terminators ('NL') are the tokens the stream functions skip.
"""
from collections import defaultdict
import re
import trees

EPS = None


class NFA:
    def __init__(self):
        self.tr = []          # state -> list of (symbol | None, state)
        self.acc = set()      # accepting states
        self.la = {}          # (state, symbol, target) -> lookahead, accepting: state -> lookahead

    def new(self):
        self.tr.append([])
        return len(self.tr) - 1

    def add(self, a, s, b):
        self.tr[a].append((s, b))


# ------------------------------------------------------------------ reference grammar syntax
TOK = re.compile(r'''\s*(?:
   (?P<ret>=>\s*"[^"]*") | (?P<eq>\$\w+) | (?P<kind>%[\w.]+) |
   (?P<look>\?[\w:]+=\d) | (?P<scan>![\w]+) | (?P<back>@\w+) |
   (?P<la>&!?~?\{[^}]*\}|&!?~?\w+) |
   (?P<nl>~) | (?P<maybe>\^) |
   (?P<nt>[a-z_]\w*(?:\([^()]*\))?) | (?P<tok>[A-Z]\w*) | (?P<set>\{[^}]*\}) |
   (?P<op>[()|*+?])
)''', re.X)


class Syntax(Exception):
    pass


def short(n):
    """name of a token in the reference grammar"""
    p = n.split('.')
    if 'AssignOp' in p[:-1]:
        return 'Assign' + p[-1]
    return p[-1]


class RefGrammar:
    """compiles expressions of the reference grammar to NFAs over token names"""

    def __init__(self, toknames, skip):
        self.short = {}
        for n in toknames:
            k = short(n)
            if k in self.short:
                raise Syntax('ambiguous token name ' + k)
            self.short[k] = n
        self.toknames = toknames
        self.skip = skip                  # names of the separators
        self.macros = {}
        self.sets = {'ANY': set(toknames), 'NL': set(skip)}

    def tokset(self, text):
        out = set()
        for w in text.replace('{', ' ').replace('}', ' ').split():
            if w in self.sets:
                out |= self.sets[w]
            elif w in self.short:
                out.add(self.short[w])
            elif w.startswith('*'):
                out |= {n for n in self.toknames if n.startswith(w[1:])}
            else:
                raise Syntax('unknown token ' + w)
        return out

    def define(self, name, text):
        self.macros[name] = text

    def compile(self, text, nfa=None):
        toks = []
        i = 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m or m.end() == i:
                raise Syntax('cannot read: ' + text[i:i + 30])
            k = m.lastgroup
            toks.append((k, m.group(k)))
            i = m.end()
        if nfa is None:
            nfa = NFA()
        self.toks = toks
        self.i = 0
        a, b = self.alt(nfa)
        if self.i != len(toks):
            raise Syntax('unexpected %s in %s' % (toks[self.i], text))
        return nfa, a, b

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def alt(self, n):
        a, b = n.new(), n.new()
        while True:
            x, y = self.seq(n)
            n.add(a, EPS, x)
            n.add(y, EPS, b)
            if self.peek() == ('op', '|'):
                self.i += 1
                continue
            return a, b

    def seq(self, n):
        a = n.new()
        cur = a
        while True:
            k, v = self.peek()
            if k is None or (k == 'op' and v in '|)'):
                return a, cur
            x, y = self.rep(n)
            n.add(cur, EPS, x)
            cur = y

    def rep(self, n):
        x, y = self.atom(n)
        while self.peek()[0] == 'op' and self.peek()[1] in '*+?':
            op = self.peek()[1]
            self.i += 1
            a, b = n.new(), n.new()
            n.add(a, EPS, x)
            n.add(y, EPS, b)
            if op in '*?':
                n.add(a, EPS, b)
            if op in '*+':
                n.add(y, EPS, x)
            x, y = a, b
        return x, y

    def tokens(self, n, names):
        a, b = n.new(), n.new()
        for t in names:
            n.add(a, ('t', t), b)
        return a, b

    def atom(self, n):
        k, v = self.peek()
        self.i += 1
        if k == 'op' and v == '(':
            x = self.alt(n)
            if self.peek() != ('op', ')'):
                raise Syntax('expected )')
            self.i += 1
            return x
        if k == 'nl':
            # newlines are allowed before the next atom
            x, y = self.atom(n)
            a = n.new()
            n.add(a, EPS, x)
            for t in self.skip:
                n.add(a, ('t', t, 'skip'), x)
            return a, y
        if k == 'maybe':
            # depends on more than the next token
            x, y = self.atom(n)
            n.tr[x] = [(('t', s[1], 'maybe') if s and s[0] == 't' else s, b) for s, b in n.tr[x]]
            return x, y
        if k == 'la':
            neg = v.startswith('&!')
            x = v[2:] if neg else v[1:]
            deep = x.startswith('~')
            s = self.tokset(x[1:] if deep else x)
            if neg:
                s = set(self.toknames) - s
            a, b = n.new(), n.new()
            if deep:
                n.add(a, ('la', frozenset(s | set(self.skip)), frozenset(s)), b)
            else:
                n.add(a, ('la', frozenset(s), None), b)
            return a, b
        if k == 'nt':
            a, b = n.new(), n.new()
            m = re.match(r'(\w+)(?:\((.*)\))?$', v)
            ca = tuple(x.strip() for x in m.group(2).split(',')) if m.group(2) is not None else None
            n.add(a, ('n', m.group(1), ca), b)
            return a, b
        if k == 'set':
            return self.tokens(n, self.tokset(v))
        if k == 'tok':
            if v in self.macros:
                keep = self.toks, self.i
                _, a, b = self.compile(self.macros[v], n)
                self.toks, self.i = keep
                return a, b
            if v == 'NL':
                return self.tokens(n, self.skip)
            return self.tokens(n, self.tokset(v))
        if k == 'look':
            a, b = n.new(), n.new()
            nm, val = v[1:].split('=')
            n.add(a, ('look', nm, int(val)), b)
            return a, b
        if k == 'scan':
            a, b = n.new(), n.new()
            n.add(a, ('s', v[1:]), b)
            return a, b
        if k == 'back':
            a, b = n.new(), n.new()
            n.add(a, ('b', v[1:]), b)
            return a, b
        if k in ('eq', 'kind'):
            a, b = n.new(), n.new()
            n.add(a, ('q' if k == 'eq' else 'k', v[1:]), b)
            return a, b
        if k == 'ret':
            a, b = n.new(), n.new()
            n.add(a, ('ret', v[v.index('"') + 1:-1]), b)
            return a, b
        raise Syntax('unexpected %r' % (v,))

    def build(self, text):
        nfa, a, b = self.compile(text)
        nfa.start = a
        nfa.acc = {b}
        return nfa

    def machine(self, start, rules, acc):
        """rules: {state: [(expression, next state)]}"""
        nfa = NFA()
        ids = {}

        def st(s):
            if s not in ids:
                ids[s] = nfa.new()
            return ids[s]
        for s, rs in rules.items():
            for ex, t in rs:
                _, a, b = self.compile(ex, nfa)
                nfa.add(st(s), EPS, a)
                nfa.add(b, EPS, st(t))
        nfa.start = st(start)
        nfa.acc = {st(s) for s in acc}
        return nfa


# ------------------------------------------------------------------ automata of the code
def code_nfa(v, spec):
    """NFA of the successful paths of an analysed function. Symbols: ('m', mask), ('n', name, cargs, m1, m2)
    (parsing function reached with next tokens m1, after separators m2), ('s', fn), ('b', where), ('look', fn, val)"""
    n = NFA()
    marks = {('q',) if s[0] == 'q' else s[1].split('.')[0] for t in spec.tr for s, _ in t if s and s[0] in 'qk'}
    co = v.coreach_ok()
    for _ in v.trans:
        n.new()
    n.start = 0
    for a, es in enumerate(v.trans):
        if a not in co:
            continue
        for e, b in es:
            if b not in co:
                continue
            if e is None:
                n.add(a, EPS, b)
            elif e[0] == 'tok':
                n.add(a, ('m', e[1]), b)
            elif e[0] == 'nt':
                n.add(a, ('n', e[1], e[2] if any(c != '_' for c in e[2]) else (), e[9], e[10]), b)
            elif e[0] == 'scan':
                n.add(a, ('s', e[1]), b)
            elif e[0] == 'look':
                n.add(a, ('look', e[1], e[2]), b)
            elif e[0] == 'back':
                n.add(a, ('b', e[1].replace('tok:', '').split('.')[-1]), b)
            elif e[0] == 'streq' and ('q',) in marks:
                n.add(a, ('q', e[1]), b)
            elif e[0] == 'build' and e[1].split('.')[0] in marks:
                n.add(a, ('k', e[1]), b)
            else:
                n.add(a, EPS, b)
    n.acc = {}
    n.rets = {}
    for s, d in v.exits.items():
        if d[0] in ('Ok', 'val'):
            n.acc[s] = (d[7], d[8])
            n.rets[s] = d[5]
    return n


class Diff:
    def __init__(self, word, what, key):
        self.word = word
        self.what = what
        self.key = key


class Toks(list):
    """(mask, state) of the tokens that can be consumed; real: those consumed for good, not skipped"""
    real = 0
    maybe = 0


class Comparer:
    """compares the automaton of an analysed function with the reference grammar"""

    def __init__(self, W):
        self.W = W
        self.full = W.P.full(W.E.tok_ty)
        self.sep = W.E.skip_bits()
        poss = 0
        for v in W.views.values():
            for d in v.exits.values():
                if d[0] in ('Ok', 'val'):
                    for m in d[7:9]:
                        if m >= 0 and m & self.full != self.full:
                            poss |= m
            for es in v.trans:
                for e, b in es:
                    if e is not None and e[0] == 'nt':
                        for m in e[9:11]:
                            if m >= 0 and m & self.full != self.full:
                                poss |= m
        self.poss = poss & self.full
        self.rets = {}
        self.rterm = {}
        self.names = {W.bit[n]: short(n) for n in W.names}

    def tn(self, m):
        a = [self.names[self.W.bit[n]] for n in self.W.tok_names(m)]
        c = [self.names[self.W.bit[n]] for n in self.W.tok_names(self.poss & ~m)]
        return '{' + ' '.join(a) + '}' if len(a) <= len(c) or len(a) < 6 else 'all but {' + ' '.join(c) + '}'

    def spec_masks(self, n):
        """token names to masks"""
        for t in n.tr:
            for i, (s, b) in enumerate(t):
                if s is not None and s[0] == 't':
                    t[i] = (('m', self.W.bit[s[1]]) + s[2:], b)
                elif s is not None and s[0] == 'la' and not isinstance(s[1], int):
                    t[i] = (('la', self.W.mask(*s[1]), None if s[2] is None else self.W.mask(*s[2])), b)
        if isinstance(n.acc, set):
            n.acc = {s: (None, None) for s in n.acc}
        return n

    def step(self, n, S, val):
        """S: set of (state, la). -> tokens {mask: targets}, other {symbol: targets}, masks of calls/exit"""
        w = [(q, la, None) for q, la in S]
        seen = set(w)
        toks = Toks()
        other = defaultdict(set)
        decl = {}          # symbol or 'exit' -> [m1, m2, all declared]
        toks.rets = set()
        while w:
            q, la, ret = w.pop()
            if q in n.acc:
                toks.rets.add(n.rets.get(q) if hasattr(n, 'rets') else ret)
                m1, m2 = n.acc[q]
                if la is not None:
                    m1, m2 = la
                d = decl.setdefault('exit', [0, 0, False])
                if m1 is None:
                    d[2] = True
                else:
                    d[0] |= m1
                    if m1 & self.sep:
                        d[1] = None if m2 is None or d[1] is None else d[1] | m2
            for s, b in n.tr[q]:
                if s is EPS:
                    nx = (b, la, ret)
                elif s[0] == 'ret':
                    nx = (b, la, s[1])
                elif s[0] == 'la':
                    nx = (b, s[1:] if la is None else (la[0] & s[1], s[2] if la[1] is None else
                                                       la[1] if s[2] is None else la[1] & s[2]), ret)
                elif s[0] == 'look':
                    if val.get(s[1], s[2]) != s[2]:
                        continue
                    nx = (b, la, ret)
                else:
                    nx = None
                if nx is not None:
                    if nx not in seen:
                        seen.add(nx)
                        w.append(nx)
                    continue
                if s[0] == 'm':
                    m = s[1] if la is None else s[1] & la[0]
                    toks.append((m, b))
                    if len(s) == 2:
                        toks.real |= m
                    elif s[2] == 'maybe':
                        toks.maybe |= m
                elif s[0] == 'n':
                    k = ('n', s[1], s[2] or ())
                    other[k].add((b, None))
                    d = decl.setdefault(k, [0, 0, False])
                    if len(s) > 3:
                        d[0] |= s[3]
                        if s[3] & self.sep:
                            d[1] |= s[4]
                    elif la is not None:
                        d[0] |= la[0]
                        if la[0] & self.sep:
                            d[1] = None if la[1] is None or d[1] is None else d[1] | la[1]
                    else:
                        d[2] = True
                else:
                    other[s].add((b, la if s[0] in 'qk' else None))
        return toks, other, decl

    def after_sep(self, n, toks, val):
        """tokens consumed after a separator"""
        m = 0
        for x, b in toks:
            if x & self.sep:
                z = self.step(n, {(b, None)}, val)[0]
                for y, _ in z:
                    m |= y & ~z.maybe
        return m

    def compare(self, code, spec, limit=4):
        """-> list of Diff, number of states compared, number of symbols compared. The modes of the parser are
        constant during a function; the results of tests of characters hold until something is consumed"""
        from itertools import product
        modes = sorted({s[1] for n in (code, spec) for t in n.tr for s, _ in t
                        if s and s[0] == 'look' and s[1].startswith('mode:')})
        out = []
        ns = ny = 0
        for x in product((0, 1), repeat=len(modes)):
            d, a, b = self.compare1(code, spec, limit, dict(zip(modes, x)))
            out += d
            ns += a
            ny += b
        return out, ns, ny

    def compare1(self, code, spec, limit, modes):
        from itertools import product
        code_looks = sorted({s[1] for n in (code, spec) for t in n.tr for s, _ in t
                             if s and s[0] == 'look' and s[1] not in modes})
        vals = [dict(zip(code_looks, x), **modes) for x in product((0, 1), repeat=len(code_looks))]
        # last parsing function, after a separator, after the end
        start = (frozenset({(code.start, None)}), frozenset({(spec.start, None)}), (None, False, False))
        seen = {start: None}
        work = [start]
        diffs = []
        nsym = 0

        def word(k):
            out = []
            while seen[k] is not None:
                k, s = seen[k]
                out.append(s)
            return list(reversed(out))
        i = 0
        while i < len(work):
            k = work[i]
            i += 1
            C, S, (last, nl, eof) = k
            follow = self.W.follow.get(last, -1) if last else -1
            follow &= self.poss
            if nl:
                follow &= ~self.sep
            if eof:
                follow &= self.eofmask()
            for val in vals:
                vt = ''.join(' [%s%s]' % ('' if b else 'not ', f) for f, b in sorted(val.items()))
                ct, co, cd = self.step(code, C, val)
                st, so, sd = self.step(spec, S, val)
                cons = 0
                for m, _ in st:
                    cons |= m
                sure = cons & ~st.maybe
                cm = 0
                for m, _ in ct:
                    cm |= m
                sm = cons & follow
                cm &= follow
                if sm & ~cm:
                    diffs.append(Diff(word(k), 'does not accept %s%s' % (self.tn(sm & ~cm), vt), 'rejects'))
                if cm & ~sm:
                    diffs.append(Diff(word(k), 'accepts %s%s' % (self.tn(cm & ~sm), vt), 'accepts'))
                for s in so:
                    if s not in co:
                        diffs.append(Diff(word(k), 'does not continue with %s%s' % (self.sn(s), vt), 'lacks ' + self.sn(s)))
                for s in co:
                    if s not in so:
                        diffs.append(Diff(word(k), 'continues with %s%s' % (self.sn(s), vt), 'extra ' + self.sn(s)))
                if ('exit' in cd) != ('exit' in sd):
                    diffs.append(Diff(word(k), ('can end here%s' if 'exit' in cd else 'cannot end here%s') % vt, 'end'))
                if 'exit' in cd and 'exit' in sd and None not in st.rets:
                    for r in sorted(ct.rets):
                        nsym += 1
                        if not any(self.returns(r, p) for p in st.rets):
                            diffs.append(Diff(word(k), 'returns %s%s' % (r, vt), 'returns ' + r))
                aft = None
                for s in cd:
                    if s not in sd or last == 'back':
                        continue
                    nsym += 1
                    if sd[s][2]:
                        if aft is None:
                            aft = self.after_sep(spec, st, val)
                        m1 = self.poss & ~(sure & ~self.sep) & ~st.real
                        if cons & self.sep and not self.poss & ~self.sep & ~aft:
                            m1 &= ~self.sep
                        m2 = self.poss & ~aft
                    else:
                        m1, m2 = sd[s][0] & ~st.real, sd[s][1]
                        if m2 is not None:
                            if aft is None:
                                aft = self.after_sep(spec, st, val)
                            m2 &= ~aft
                    f2 = self.poss & ~self.sep
                    c1 = cd[s][0] & follow
                    s1 = m1 & follow
                    nm = 'ends here' if s == 'exit' else 'continues with ' + self.sn(s)
                    if c1 != s1:
                        diffs.append(Diff(word(k), '%s%s before %s' % (nm, vt, (self.tn(c1 & ~s1) + ' as well' if c1 & ~s1 else
                                                                       'fewer tokens: not before ' + self.tn(s1 & ~c1))), 'next ' + nm))
                    elif c1 & self.sep and m2 is not None:
                        c2 = cd[s][1] & f2
                        s2 = m2 & f2
                        if c2 != s2:
                            diffs.append(Diff(word(k), '%s%s before separators and %s' % (
                                nm, vt, (self.tn(c2 & ~s2) + ' as well' if c2 & ~s2 else
                                         'fewer tokens: not ' + self.tn(s2 & ~c2))), 'next2 ' + nm))
                if len(diffs) >= limit:
                    return diffs, i, nsym
                # successors
                both = cm & sm
                cl = [both] if both else []
                for m, _ in ct + st:
                    cl = [x for c in cl for x in (c & m, c & ~m) if x]
                groups = defaultdict(int)
                for c in cl:
                    nsym += 1
                    a = frozenset((b, None) for m, b in ct if m & c)
                    z = frozenset((b, None) for m, b in st if m & c)
                    issep = bool(c & self.sep)
                    iseof = c == self.eofmask()
                    groups[(a, z, (None, issep, iseof or (eof and issep)))] |= c
                for t, c in groups.items():
                    if t not in seen:
                        seen[t] = (k, self.tn(c) if bin(c).count('1') > 1 else self.tn(c)[1:-1])
                        work.append(t)
                for s in co:
                    if s in so:
                        nsym += 1
                        lst = None
                        if s[0] == 'n':
                            lst = 'nt:' + s[1] + ('(' + ','.join(s[2]) + ')' if any(c != '_' for c in s[2]) else '')
                        elif s[0] == 'b':
                            lst = 'back'
                        t = (frozenset(co[s]), frozenset(so[s]), (last, nl, eof) if s[0] in 'qk' else (lst, False, False))
                        if t not in seen:
                            seen[t] = (k, self.sn(s))
                            work.append(t)
        return diffs, len(work), nsym

    def returns(self, desc, pattern):
        k = (desc, pattern)
        if k not in self.rets:
            t = self.rterm.get(desc)
            if t is None:
                t = self.rterm[desc] = trees.parse(trees.enc(desc))
            self.rets[k] = any(trees.Matcher(trees.parse(trees.enc(pattern))).match(x) for x in (t[1] if t[0] == 'any' else (t,)))
        return self.rets[k]

    def eofmask(self):
        return self.W.bit['Eof']

    def sn(self, s):
        if s[0] == 'n':
            return s[1] + ('(' + ','.join(s[2]) + ')' if any(c != '_' for c in s[2]) else '')
        return {'s': '!', 'b': '@', 'q': '$', 'k': '%'}.get(s[0], '') + str(s[1])
