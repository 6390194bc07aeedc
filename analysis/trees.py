"""Syntax-tree templates: which nodes a parsing function builds and returns, and from what.

Terms: ('k', Kind, fields)  ('l', leaf, previous tokens or None)  ('v', exact, elements or leaf names)  ('?',)
       ('any', patterns) is a choice (patterns only), ('#', Kind, fields or None) a node built in the same function"""
import re

PREFIX = re.compile(r'\btok:(Punct\.|Reserved\.)?|\b(Punct|Reserved)\.|\bnt:')
TERM = {'LineTerm', 'Semi', 'Eof', 'TERM'}


class TreeSyntax(Exception):
    pass


def leaf(text, prev):
    text = text.strip()
    if text in ('?', '..', '-', ''):
        return ('?',)
    if prev is None:
        return ('l', text, None)
    p = set()
    for x in split(prev, '|'):
        x = PREFIX.sub('', x.strip())
        x = re.sub(r'^(AssignOp)\.', 'Assign', x)
        p.add('TERM' if x in TERM else x)
    return ('l', text, frozenset(p))


def split(s, sep):
    out = []
    d = 0
    cur = ''
    for i, c in enumerate(s):
        if c in '([<{':
            d += 1
        elif c in ')]}' or c == '>' and (i == 0 or s[i - 1] != '-'):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out]


def close(s, i):
    """index of the bracket that closes the one at i"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in '([<{':
            d += 1
        elif s[j] in ')]>}':
            d -= 1
            if d == 0:
                return j
    raise TreeSyntax('unbalanced: ' + s)


def fields(s):
    s = s.strip()
    return tuple(parse(x) for x in split(s, ',')) if s else ()


def enc(s):
    def f(m):
        return "'%s'" % ''.join(c if c.isalnum() or c in '_ ' else 'x%02x' % ord(c) for c in m.group(1))
    return re.sub(r"'([^']*)'", f, s)


def parse(s):
    s = s.strip()
    alts = split(s, '|')
    if len(alts) > 1:
        return ('any', tuple(parse(x) for x in alts))
    if s == '_':
        return ('_',)
    if not s or s in ('?', '..', '-'):
        return ('?',)
    if s[0] == '~':
        # an alternative that may stand in for its siblings
        return parse(s[1:]) + ('opt',)
    if s[0] == '#':
        t = parse(s[1:])
        if t[0] == 'k':
            return ('#', t[1], t[2])
        return ('#', t[1], None)
    if s[0] == '[':
        j = close(s, 0)
        body = s[1:j].strip()
        tail = s[j + 1:].strip()
        m = re.match(r'^\d+\+\s*(.*)$', body, re.S)
        if m:
            names = set()
            for x in split(m.group(1), ',') if m.group(1) else []:
                names |= leaves(parse(x), True)
            return ('v', False, frozenset(names))
        if tail and tail[0] in '*+':
            # [..]*&T: one element comes after T
            return ('list', parse(body), tail)
        return ('v', True, fields(body))
    if s[0] == '(':
        j = close(s, 0)
        return ('k', '', fields(s[1:j]))
    m = re.match(r'^elem:(?:nt:)?([a-z]\w*(?:\([^()]*\))?)(<[^<>]*>)?(\{[^{}]*\})?$', s)
    if m:
        # the only element of a list (and its kind, if it was tested)
        return ('l', 'elem:%s%s' % (m.group(1), m.group(3) or ''), None)
    s = re.sub(r'\{[^{}]*\}$', '', s)
    m = re.match(r'^([A-Z]\w*)\((.*)\)$', s, re.S)
    if m:
        return ('k', m.group(1), fields(m.group(2)))
    m = re.match(r'^([a-z]\w*(?:\([^()]*\))?)((?:\.\w+)*)<', s)
    if m:
        j = close(s, m.end() - 1)
        return leaf(m.group(1) + m.group(2) + re.sub(r'\{[^{}]*\}', '', s[j + 1:]), s[m.end():j])
    return ('l', re.sub(r'\{[^{}]*\}', '', s), None)


PUNCT = set()


def leaves(t, full=False):
    """names of the leaves that stand for source content (full: with the punctuation in front of them)"""
    k = t[0]
    if k == 'l':
        if t[1][0].islower():
            n = t[1].split('<')[0]
            if full:
                p = next(iter(t[2])) if t[2] and len(t[2]) == 1 else ''
                return {(basename(n), p)}
            return {n}
        return set()
    if k == '#':
        return {('#' + t[1], '')} if full else {'#' + t[1]}
    if k == 'k':
        return set().union(*[leaves(x, full) for x in t[2]]) if t[2] else set()
    if k == 'any':
        return set().union(*[leaves(x, full) for x in t[1]])
    if k == 'v':
        return set(t[2]) if not t[1] else set().union(*[leaves(x, full) for x in t[2]]) if t[2] else set()
    if k == 'list':
        return leaves(t[1], full)
    return set()


def basename(x):
    return re.sub(r'\..*', '', x)


def pleaves(p, path):
    k = p[0]
    if k in ('l', '#'):
        yield path, p if k == 'l' else ('l', '#' + p[1], None)
        if k == '#' and p[2]:
            for i, x in enumerate(p[2]):
                yield from pleaves(x, '%s.%d' % (path, i))
    elif k == 'any':
        for i, x in enumerate(p[1]):
            yield from pleaves(x, '%s|%d' % (path, i))
    elif k in ('k', 'v') and p[2] and (k == 'k' or p[1]):
        for i, x in enumerate(p[2]):
            yield from pleaves(x, '%s.%d' % (path, i))
    elif k == 'list':
        yield from pleaves(p[1], path + '*')


class Matcher:
    """matches actual terms against one pattern and records which alternatives were used"""

    def __init__(self, pattern):
        self.p = pattern
        self.used = {}
        self.alts = {}
        self.index(pattern, '')

    def index(self, p, path):
        k = p[0]
        if k == 'any':
            for i, x in enumerate(p[1]):
                self.index(x, '%s|%d' % (path, i))
            return
        self.alts[path] = p
        if k in ('k', '#') and p[2]:
            for i, x in enumerate(p[2]):
                self.index(x, '%s.%d' % (path, i))
        elif k == 'v' and p[1]:
            for i, x in enumerate(p[2]):
                self.index(x, '%s.%d' % (path, i))
        elif k == 'list':
            self.index(p[1], path + '*')

    def match(self, t):
        u = []
        r = self.m(self.p, t, '', u)
        if r:
            for path, tok in u:
                self.used.setdefault(path, set()).update(tok)
        return r

    def m(self, p, t, path, u):
        k = p[0]
        if k == '_':
            u.append((path, ()))
            return True
        if t[0] == '?':
            self.wild(p, path, u)
            return True
        if k == 'any':
            for i, x in enumerate(p[1]):
                v = []
                if self.m(x, t, '%s|%d' % (path, i), v):
                    u += v
                    return True
            return False
        if k == 'k':
            if t[0] not in ('k', '#') or t[1] != p[1] or t[2] is None or len(t[2]) != len(p[2]):
                return False
            u.append((path, ()))
            return all(self.m(x, y, '%s.%d' % (path, i), u) for i, (x, y) in enumerate(zip(p[2], t[2])))
        if k == '#':
            if t[0] == 'l' and t[1] == p[1] and t[2] is None:
                u.append((path, ()))
                return not p[2]
            if t[0] not in ('#', 'k') or t[1] != p[1]:
                return False
            u.append((path, ()))
            if p[2] is None:
                return True
            if t[2] is None:
                for i, x in enumerate(p[2]):
                    self.wild(x, '%s.%d' % (path, i), u)
                return True
            if len(t[2]) != len(p[2]):
                return False
            return all(self.m(x, y, '%s.%d' % (path, i), u) for i, (x, y) in enumerate(zip(p[2], t[2])))
        if k == 'l':
            if t[0] == '#' and not t[2]:
                t = ('l', t[1], None)
            if t[0] != 'l' or t[1] != p[1]:
                return False
            if p[2] is None or t[2] is None:
                u.append((path, ()))
                return p[2] is None and t[2] is None
            if not t[2] <= p[2]:
                return False
            u.append((path, t[2]))
            return True
        if k == 'v':
            if t[0] != 'v':
                return False
            if p[1]:
                if t[1] != p[1] or len(t[2]) != len(p[2]):
                    return False
                u.append((path, ()))
                return all(self.m(x, y, '%s.%d' % (path, i), u) for i, (x, y) in enumerate(zip(p[2], t[2])))
            return False
        if k == 'list':
            if t[0] != 'v':
                return False
            u.append((path, ()))
            if t[1]:
                if (p[2][0] == '+' or '&' in p[2]) and not t[2]:
                    return False
                return all(self.m(p[1], y, path + '*', u) for y in t[2])
            if '&' in p[2] and p[2].split('&')[1] not in {x for _, x in t[2]}:
                return False
            pl = list(pleaves(p[1], path + '*'))
            for n, pr in t[2]:
                hit = [(q, x) for q, x in pl if basename(x[1]) == n and
                       (x[2] is None or (pr in x[2] if pr else x[2] - PUNCT))]
                if not hit:
                    return False
                for q, x in hit:
                    u.append((q, {pr} if pr else (x[2] or set()) - PUNCT))
                    u += [(a, ()) for a, y in self.alts.items() if y[0] in ('k', '#', 'v') and q.startswith(a)]
            return True
        raise TreeSyntax(str(p))

    def wild(self, p, path, u):
        """an unknown value: everything below counts as seen"""
        k = p[0]
        if k == 'any':
            for i, x in enumerate(p[1]):
                self.wild(x, '%s|%d' % (path, i), u)
            return
        u.append((path, p[2] if k == 'l' and p[2] else ()))
        if k in ('k', '#') and p[2]:
            for i, x in enumerate(p[2]):
                self.wild(x, '%s.%d' % (path, i), u)
        elif k == 'v' and p[1]:
            for i, x in enumerate(p[2]):
                self.wild(x, '%s.%d' % (path, i), u)
        elif k == 'list':
            self.wild(p[1], path + '*', u)

    def unused(self):
        subst = {path.rpartition('|')[0] for path, p in self.alts.items() if p[-1] == 'opt' and path in self.used}
        for path, p in self.alts.items():
            if p[-1] == 'opt' or '|' in path and path.rpartition('|')[0] in subst:
                continue
            if path not in self.used:
                # report only the outermost unused part
                if not any(path.startswith(q) and q != path and q not in self.used for q in self.alts):
                    yield show(p)
            elif p[0] == 'l' and p[2] and not p[2] <= self.used[path]:
                yield '%s<%s>' % (p[1], '|'.join(sorted(p[2] - self.used[path])))


def show(t):
    k = t[0]
    if k == 'k':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2])) if t[2] or not t[1] else t[1]
    if k == '#':
        return '#' + t[1] + ('(%s)' % ', '.join(show(x) for x in t[2]) if t[2] else '')
    if k == 'l':
        return t[1] + ('<%s>' % '|'.join(sorted(t[2])) if t[2] is not None else '')
    if k == 'any':
        return ' | '.join(show(x) for x in t[1])
    if k == 'v':
        if t[1]:
            return '[%s]' % ', '.join(show(x) for x in t[2])
        return '[.. %s ..]' % '|'.join(sorted(n + ('<%s>' % p if p else '') for n, p in t[2]))
    if k == 'list':
        return '[%s]%s' % (show(t[1]), t[2])
    return k


def actual(W, v):
    if not PUNCT:
        PUNCT.update(n.split('.')[-1] for n in W.names if n.startswith('Punct.') and n != 'Punct.Comma')
        PUNCT.update('Assign' + n.split('.')[-1] for n in W.names if n.startswith('Punct.AssignOp.'))
    """-> (terms of the nodes built, terms of the values returned) on successful paths"""
    co = v.coreach_ok()
    b = set()
    for a, e, x in v.events():
        if e[0] == 'build' and x in co:
            kind = e[1].split('.')
            if kind[0] in ('NodeKind', 'ParamKind', 'RescueEntry', 'CaseBranch', 'CompStmt') or True:
                b.add((kind[0], ('k', kind[-1], tuple(parse(enc(y)) for y in e[2]))))
    r = {parse(enc(d[5])) for d in v.exits.values() if d[0] in ('Ok', 'val')}
    return b, r


KINDS = ('NodeKind', 'ParamKind')


class Row:
    def __init__(self, text):
        t = text.strip()
        self.inner = t.startswith('+')
        self.ret = t.startswith('->')
        if self.inner:
            t = t[1:]
        elif self.ret:
            t = t[2:]
        self.text = re.sub(r'\s+', ' ', t.strip())
        self.b = None if self.ret else Matcher(parse(enc(t)))
        self.r = None if self.inner else Matcher(parse(enc(t)))


def dropped(d, x):
    n = re.sub(r'[<{].*', '', d)
    m = re.match(r'(.*?)(?:\{(.*)\})?$', x)
    if m.group(1) != n:
        return False
    if m.group(2) is None:
        return True
    k = re.search(r'\{([^{}]*)\}$', d)
    return bool(k) and set(k.group(1).split('|')) <= set(m.group(2).split('|'))


class Trees:
    def __init__(self, path):
        self.rules = {}
        exec(compile(open(path).read(), path, 'exec'), {'T': self.T})

    def T(self, label, text):
        # a row ends at a newline outside brackets
        rows = []
        cur = ''
        d = 0
        for line in text.split('\n'):
            cur += ' ' + line
            for i, c in enumerate(line):
                if c in '([':
                    d += 1
                elif c in ')]':
                    d -= 1
            if d == 0 and not cur.rstrip().endswith('|'):
                if cur.strip():
                    rows.append(cur)
                cur = ''
        self.rules[label] = rows

    def check(self, W, v):
        """-> list of (key, message), number of terms compared"""
        rows = [Row(x) for x in self.rules[v.label] if x.strip()[0] != '~']
        b, r = actual(W, v)
        out = []
        n = 0
        # nothing parsed is dropped
        may = [re.sub(r'\s', '', x.strip()[1:]) for x in self.rules[v.label] if x.strip()[0] == '~']
        co = v.coreach_ok()
        for d in sorted({e[1] for a, e, y in v.events() if e[0] == 'drop' and y in co}):
            n += 1
            if not any(dropped(d, x) for x in may):
                out.append(('drops ' + re.sub(r'[<{].*', '', d), 'drops ' + d + ' without using it in the tree'))
        for en, t in sorted(b, key=repr):
            if en not in KINDS:
                continue
            n += 1
            hit = False
            for x in rows:
                if x.b and x.b.match(t):
                    hit = True
            if not hit and (t[2] or any(x.b and x.b.p[0] == 'k' and x.b.p[1] == t[1] for x in rows)):
                out.append(('builds ' + t[1], 'builds ' + show(t)))
        for t in sorted(r, key=repr):
            n += 1
            hit = False
            for x in rows:
                if x.r and x.r.match(t):
                    hit = True
            if not hit and t[0] != '?':
                out.append(('returns ' + show(t).split('(')[0], 'returns ' + show(t)))
        wild = any(t[0] == '?' for t in r)
        for x in rows:
            if x.b is not None:
                for p in x.b.unused():
                    if not (x.b.p[0] in ('k', 'l') and not x.b.p[2]):
                        out.append(('never builds ' + x.text.split('(')[0], 'never builds %s of %s' % (p, x.text)))
            if x.r is not None and not wild:
                for p in x.r.unused():
                    out.append(('never returns ' + x.text.split('(')[0], 'never returns %s of %s' % (p, x.text)))
        return out, n
