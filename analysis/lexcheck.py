"""Comparison of the character-level graphs of the lexer with the reference automaton (spec/lex.py)."""
import fnmatch, os, re, sys
import lib
sys.path.insert(0, os.path.join(lib.VERIF, 'spec'))
import lex as S
from lexeng import cps_of, EOF, CPS, BIT
import lexgraphs

OLD = 4
QMAX = 12
# states of the product of one entry: after a difference was found / at most
CUT, LIMIT = 100000, 1500000
ANYC = [chr(c) for c in CPS]


def parse_push(what, desc):
    """-> list of entries of the implementation"""
    m = re.fullmatch(r'in(\d+)', desc)
    if m:
        return [('in', int(m.group(1)))]
    m = re.fullmatch(r'c(\d+)', desc)
    if m:
        return [('k', int(m.group(1)))]
    if desc == 'first':
        return [('first',)]
    m = re.fullmatch(r'val\((\d+),(\d+),(\w+),(\d+),(.*)\)', desc)
    if m and m.group(3) == 'here':
        return [('val', int(m.group(1)), int(m.group(2)), int(m.group(4)), m.group(5), what)]
    m = re.fullmatch(r'fmt\(new_lower_hex:val\((\d+),(\d+),here,0,(.*)\)\)', desc)
    if m and what == 'str':
        return [('hex', int(m.group(1)), int(m.group(2)))]
    return None


def literal(s):
    return [('k', ord(c)) for c in s]


def norm_exit(desc):
    """-> (description with contents replaced by buf, the contents that were given literally)"""
    out = []
    if desc.startswith('Err('):
        return desc, out

    def rep(m):
        if m.group(1) is not None:
            out.extend(literal(m.group(1)))
        else:
            e = parse_push('char', m.group(2))
            out.append(e[0] if e else None)
        return 'buf'
    d = re.sub(r"'((?:[^'\\]|\\.)*)'|chs\(([^()]*(?:\([^()]*\))?)\)", rep, desc)
    return d, out


class Lost(Exception):
    pass


def match(e, g):
    """expected entry e, entry g of the implementation"""
    if e[0] == 'in':
        _, age, mask, first = e
        if g[0] == 'first':
            return first
        if g[0] == 'in':
            return g[1] == age
        if g[0] == 'k':
            return mask == BIT.get(g[1], 0)
        return False
    if e[0] == 'k':
        if g[0] == 'k':
            return g[1] in e[1]
        if g[0] == 'in':
            return e[2] is not None and e[2] == g[1]
        return False
    if e[0] in ('val', 'byte'):
        if g[0] != 'val':
            return False
        base, n = e[1], e[2]
        if g[1] != (base if n > 1 else 0) or g[2] != n or g[3] != 0:
            return False
        if e[0] == 'val':
            return g[5] == 'char'
        if n == 1 or n == 2 and base == 8:
            return True
        return g[5] == 'char' and g[4] == '<128' or g[5] == 'byte'
    if e[0] == 'hex':
        return g[0] == 'hex' and g[1] == (e[1] if e[2] > 1 else 0) and g[2] == e[2]
    return False


def q_pair(q, e=None, g=None):
    """q: ('S'|'I', entries) - what only one side has produced so far.  Adds an entry; -> queue or None (mismatch)"""
    side, es = q
    if e is not None:
        if side == 'I' and es:
            if match(e, es[0]):
                return ('I', es[1:]) if len(es) > 1 else ('', ())
            if e[0] == 'opt':
                return ('I', es[1:]) if es[0] == ('k', e[1]) else q
            return None
        if len(es) >= QMAX:
            raise Lost()
        return ('S', es + (e,))
    while side == 'S' and es and es[0][0] == 'opt' and g != ('k', es[0][1]):
        es = es[1:]
    if side == 'S' and es:
        if es[0][0] == 'opt' or match(es[0], g):
            return ('S', es[1:]) if len(es) > 1 else ('', ())
        return None
    if len(es) >= QMAX:
        raise Lost()
    return ('I', (es if side == 'I' else ()) + (g,))


def age(q):
    side, es = q
    if not es:
        return q
    out = []
    for e in es:
        if e[0] == 'in':
            e = (e[0], min(e[1] + 1, OLD)) + e[2:]
        elif e[0] == 'k' and len(e) > 2 and e[2] is not None:
            e = e[:2] + (min(e[2] + 1, OLD),)
        out.append(e)
    return (side, tuple(out))


def sh_entry(e):
    if e[0] == 'in':
        return 'the character read' + ('' if e[1] == 0 else ' %d before' % e[1])
    if e[0] == 'k':
        c = e[1] if isinstance(e[1], int) else sorted(e[1])[0]
        return repr(chr(c))
    if e[0] == 'first':
        return 'the first character'
    if e[0] in ('val', 'byte', 'hex'):
        return 'the number of %d digits%s' % (e[2], '' if e[2] == 1 else ' of base %d' % e[1]) + \
            (' as a byte' if e[-1] == 'byte' else ' (\\xHH)' if e[0] == 'hex' else '')
    return str(e)


class Product:
    def __init__(self, g, rep_violation, count):
        self.g = g
        self.vio = rep_violation
        self.count = count
        self.memo = {}
        self.fmemo = {}
        self.reported = 0

    def step(self, mode, mask):
        k = (mode, mask)
        r = self.memo.get(k)
        if r is None:
            groups = {}
            for c in cps_of(mask):
                x = S.step(mode, chr(c))
                if isinstance(x, str):
                    key = ((x,), ())
                else:
                    key = (x[0], tuple(x[1]))
                groups[key] = groups.get(key, 0) | BIT[c]
            r = self.memo[k] = list(groups.items())
        return r

    def final(self, mode, m1, m2):
        """verdicts for every next character in the masks: [(verdict, example)]"""
        k = (mode, m1, m2)
        r = self.fmemo.get(k)
        if r is None:
            r = []
            seen = set()
            for n1 in ([None] if m1 & EOF else []) + [chr(c) for c in cps_of(m1)]:
                if n1 is None:
                    twos = [None]
                else:
                    twos = ([None] if m2 & EOF else []) + [chr(c) for c in cps_of(m2)]
                for n2 in twos:
                    v = S.final(mode, n1, n2)
                    kk = (tuple(sorted(v)) if isinstance(v, (set, frozenset)) else v if isinstance(v, str) else
                          (tuple(sorted(v[0])) if isinstance(v[0], set) else v[0], tuple(v[1])))
                    if kk not in seen:
                        seen.add(kk)
                        r.append((v, (n1, n2)))
            self.fmemo[k] = r
        return r

    def witness(self, n):
        """the characters read on a path to product state n"""
        out = []
        while n is not None:
            p, c = self.parent[n]
            if c is not None:
                out.append(c)
            n = p
        s = ''
        for m in reversed(out):
            cs = cps_of(m)
            best = [c for c in cs if 33 <= c < 127] or cs
            s += chr(best[0])
        return s

    def report(self, n, kind, mode, msg, extra=''):
        self.reported += 1
        w = self.witness(n) + extra
        g = self.g
        key = '%s: %s (%s)' % (g.key, kind, mode[0])
        self.vio(S.group(mode), key, '%s, after reading %r: %s' % (g.fn, w, msg))

    def run(self):
        g = self.g
        mode = S.start(g.fn, g.args)
        q = ('', ())
        for o in S.start_out(mode):
            q = q_pair(q, e=self.entry(o, 0, None, True))
        # (node, mode, queue, newline, text tested)
        s0 = (0, mode, q, 0, None)
        self.parent = {s0: (None, None)}
        work = [s0]
        self.stops = {}
        i = 0
        while i < len(work):
            # breadth first: the shortest differences come first
            s = work[i]
            i += 1
            n = s[0]
            if n in g.exits:
                self.exit(s, g.exits[s[0]])
                continue
            if i > CUT and (self.reported or i > LIMIT):
                self.count('entries_cut')
                break
            for ev, b in g.out[n]:
                self.follow(s, ev, b, work)
        self.count('product_states', len(self.parent))

    def entry(self, o, mask, first, kconst=False):
        if o[0] == 'in':
            return ('in', 0, mask, bool(first))
        if o[0] == 'k':
            return ('k', o[1], o[2] if len(o) > 2 else 0 if len(o[1]) > 1 else None)
        return o

    def stop(self, why):
        self.stops[why] = self.stops.get(why, 0) + 1

    def follow(self, s, ev, b, work):
        _, mode, q, h, txt = s
        # a step may split the state; the rest of the events is followed for each part
        todo = [(0, mode, q, h, txt, None)]
        while todo:
            i, mode, q, h, txt, last = todo.pop()
            cur = s if last is None else last
            alive = True
            while i < len(ev):
                e = ev[i]
                i += 1
                k = e[0]
                if k == 'ch':
                    if mode[0] in ('over!', 'bad!'):
                        continue
                    if h:
                        self.report(cur, 'here document', mode,
                                    'characters are read after a newline although the bodies of here documents that begin '
                                    'there have not been skipped')
                        alive = False
                        break
                    parts = self.step(mode, e[1])
                    q2 = age(q)
                    nxt = []
                    for (m2, outs), mask in parts:
                        if m2 == ('free',):
                            self.stop('free')
                            continue
                        if m2 in (('over',), ('bad',)):
                            nxt.append(((m2[0] + '!', mode, mask), ('', ()), 0, mask))
                            continue
                        qq = q2
                        ok = True
                        for o in outs:
                            en = self.entry(o, mask, o[0] == 'in' and len(o) > 1)
                            if en[0] == 'in':
                                en = en[:4]
                            try:
                                r = q_pair(qq, e=en)
                            except Lost:
                                r = ('lost', ())
                            if qq[0] == 'lost' or o[0] == 'lost':
                                r = ('lost', ())
                            if r is None:
                                self.report(cur, 'content', mode, '%s is put into the text of the token instead of %s'
                                            % (sh_entry(qq[1][0]), sh_entry(en)), chr(cps_of(mask)[-1]))
                                ok = False
                                break
                            qq = r
                        if not ok:
                            continue
                        hh = 1 if mask == BIT[10] and S.newline_skips(mode) else 0
                        nxt.append((m2, qq, hh, mask))
                    if not nxt:
                        alive = False
                        break
                    for m2, qq, hh, mask in nxt[1:]:
                        z = self.inter(cur, b, i, ev, m2, qq, hh, txt, mask)
                        todo.append((i, m2, qq, hh, txt, z))
                    m2, qq, hh, mask = nxt[0]
                    mode, q, h = m2, qq, hh
                    cur = self.inter(cur, b, i, ev, m2, qq, hh, txt, mask)
                elif k == 'push':
                    if mode[0] in ('over!', 'bad!') or q[0] == 'lost':
                        continue
                    g = parse_push(e[1], e[2])
                    if g is None:
                        if e[2] == '' and e[1] not in ('char', 'byte', 'str'):
                            self.stop('rewritten')
                        else:
                            self.stop('push ' + e[2])
                        alive = False
                        break
                    try:
                        for x in g:
                            before = q
                            q = q_pair(q, g=x)
                            if q is None:
                                self.report(cur, 'content', mode, '%s is put into the text of the token instead of %s'
                                            % (sh_entry(x), sh_entry(before[1][0])))
                                alive = False
                                break
                    except Lost:
                        q = ('lost', ())
                    if not alive:
                        break
                elif k == 'hlook':
                    if h == 1:
                        h = 2 if e[1] else 0
                elif k == 'hskip':
                    h = 0
                elif k == 'is':
                    txt = self.tested(txt, e[1], e[2])
                elif k == 'prefix':
                    # longer texts have the prefix as well: it does not identify the text
                    txt = self.tested(txt, '^' + e[1] if e[2] else e[1], 0)
                elif k == 'fits':
                    txt = self.tested(txt, '#' + e[1], e[2])
                elif k in ('unknown', 'imprecise', 'blind', 'cmptext'):
                    if k != 'cmptext' or mode[0] not in ('hdb', 'hdt', 'hdn'):
                        self.stop(k)
                        alive = False
                        break
                elif k == 'back':
                    h = 0
                elif k == 'split':
                    self.report(cur, 'boundary', mode, 'the position is advanced into the middle of a character')
                    alive = False
                    break
            if alive:
                z = (b, mode, q, h, txt)
                if z not in self.parent:
                    self.parent[z] = (cur, None)
                    work.append(z)

    def inter(self, cur, b, i, ev, mode, q, h, txt, mask):
        """a point within an edge, for the reports"""
        z = ('at', cur[0], b, i, id(ev), mode, q, h, txt, cur if cur[0] != 'at' else None)
        z = ('at', cur, i, mask, mode, b) if cur[0] != 'at' else ('at', cur[:6], i, mask, mode, b)
        if z not in self.parent:
            self.parent[z] = (cur, mask)
        return z

    def tested(self, txt, text, yes):
        no = frozenset() if txt is None else txt[1]
        if yes:
            return (text, no)
        return (txt[0] if txt else None, no | {text})

    def exit(self, s, d):
        g = self.g
        n, mode, q, h, txt = s
        if d[0] == 'dead':
            self.stop('dead')
            return
        desc, ahead = d[0], d[1] if len(d) > 1 else None
        m1, m2 = ahead
        self.count('exits_checked')
        iserr = desc.startswith('Err(')
        eof = desc.startswith("Err(LexerErr('UnexpectedEOF'")
        if mode[0] in ('over!', 'bad!'):
            was = mode[1]
            if mode[0] == 'bad!':
                if not iserr:
                    self.report(s, 'accepted', was, 'malformed text is accepted as %s' % desc)
                return
            # the character did not belong to the token
            if iserr:
                vs = self.final(was, mode[2], EOF | sum(BIT.values()))
                if any(v == 'free' or isinstance(v, (set, frozenset)) and 'err' in v or v in ('err', 'eof') for v, _ in vs):
                    return
                self.report(s, 'rejected', was, 'an error is returned where a token ends')
            else:
                self.report(s, 'too long', was, 'the last character does not belong to the token %s' % desc)
            return
        if h:
            self.report(s, 'here document', mode, 'a newline was read but the bodies of here documents that begin there are '
                        'not skipped')
            return
        if desc.startswith('Ok(') and desc.endswith(')'):
            val = desc[3:-1]
        else:
            val = desc
        val = re.sub(r'Some\(c(\d+)\)', r'Some(\1)', val)
        nd, lits = norm_exit(val)
        for v, (n1, n2) in self.final(mode, m1, m2):
            extra = (n1 or '') + (n2 or '')
            outs = ()
            if isinstance(v, tuple):
                v, outs = v
            if v == 'free':
                continue
            if iserr and any(x[0] == 'val' and x[2] >= 4 for x in q[1]):
                continue          # the number may not be a code point
            if v in ('cont', 'over'):
                if v == 'over' and not iserr:
                    self.report(s, 'too long', mode, 'the characters read are not the token %s' % desc, extra)
                elif v == 'cont':
                    self.report(s, 'too short', mode, '%s is returned although the token goes on' % desc, extra)
                continue
            if v in ('err', 'eof') or v == {'err'}:
                if not iserr:
                    self.report(s, 'accepted', mode, 'malformed text is accepted as %s' % desc, extra)
                elif not eof and (v == 'eof' or n1 is None and not S.bad_already(mode)):
                    self.report(s, 'end', mode, 'at the end of the text the error is not the one for an unexpected end', extra)
                continue
            if iserr:
                if 'err' in v:
                    continue
                self.report(s, 'rejected', mode, 'an error is returned instead of %s' % ' or '.join(sorted(v)), extra)
                continue
            if self.words(s, mode, txt, val, v, extra):
                continue
            if any(fnmatch.fnmatchcase(val, p) for p in (x.replace('[', '[[]') for x in v)):
                if 'buf' not in val:
                    self.size(s, mode, txt, val, extra)
                    continue
            elif not any(fnmatch.fnmatchcase(nd, p) for p in (x.replace('[', '[[]') for x in v)):
                if '?' in val:
                    self.stop('result ' + val)
                else:
                    self.report(s, 'kind', mode, 'the token is %s, it should be %s' % (val, ' or '.join(sorted(v))), extra)
                continue
            if 'buf' not in nd:
                self.size(s, mode, txt, val, extra)
                continue
            self.size(s, mode, txt, val, extra)
            # the content
            if q[0] == 'lost':
                self.stop('content')
                continue
            qq = q
            try:
                for o in outs:
                    if qq is not None:
                        qq = q_pair(qq, e=self.entry(o, 0, None))
                for x in lits:
                    if x is None:
                        raise Lost()
                    if qq is not None:
                        qq = q_pair(qq, g=x)
            except Lost:
                self.stop('content')
                continue
            if qq is None:
                self.report(s, 'content', mode, 'wrong text in the token %s' % val, extra)
                continue
            rest = [x for x in qq[1] if x[0] != 'opt']
            if rest:
                self.report(s, 'content', mode, ('%s is missing in the text of the token' if qq[0] == 'S' else
                                                 '%s does not belong to the text of the token') % sh_entry(rest[0]), extra)

    def size(self, s, mode, txt, val, extra):
        """integers: a machine integer exactly if the number fits into 64 bits"""
        m = re.search(r'(Integer|Bignum)(Lit)?\(num', val)
        if m is None:
            return
        yes, no = txt or (None, frozenset())
        tests = {x for x in (yes,) + tuple(no) if x and x[0] == '#'}
        if tests != {'#to_i64'}:
            if not tests:
                self.stop('size')
            else:
                self.report(s, 'size', mode, 'the size of the number is tested with %s' % ' '.join(sorted(tests)), extra)
        elif (yes == '#to_i64') != (m.group(1) == 'Integer'):
            self.report(s, 'size', mode, 'a number that %s into 64 bits becomes %s'
                        % ('fits' if yes else 'does not fit', val), extra)

    def words(self, s, mode, txt, val, v, extra):
        """names: reserved words"""
        yes, no = txt or (None, frozenset())
        names = any(x.startswith(('Ident(', 'Const(')) for x in v)
        if names and '?' in val:
            self.stop('words')
            return True
        if names:
            if yes in S.WORDS:
                if val != 'Reserved(%s)' % S.WORDS[yes]:
                    self.report(s, 'word', mode, 'the word %s becomes %s' % (yes, val), extra)
                    return True
                return True
            if val.startswith('Reserved('):
                self.report(s, 'word', mode, '%s becomes %s' % (yes or 'another name', val), extra)
                return True
            miss = sorted(set(S.WORDS) - no)
            if no and miss and val.startswith(('Ident(', 'Const(')) and yes is None:
                self.report(s, 'word', mode, 'the words %s become %s' % (' '.join(miss), val), extra)
                return True
            if not no and not yes and val.startswith(('Ident(', 'Const(')):
                self.stop('words')
        if any(x.startswith('GlobalVar(text') for x in v) and mode[0] == 'gname':
            want = 'SpecialVar(%d)' % S.GLOBAL_WORDS[yes] if yes in S.GLOBAL_WORDS else 'GlobalVar(text)'
            if '?' not in val and val != want and (yes or no):
                self.report(s, 'word', mode, '%s becomes %s' % (yes or 'the variable', val), extra)
            elif not yes and no and set(S.GLOBAL_WORDS) - no:
                self.report(s, 'word', mode, '%s becomes %s' % (sorted(set(S.GLOBAL_WORDS) - no), val), extra)
            return True
        return False


def run(rep, groups, only=None):
    """only: report just the findings of this kind"""
    R = lexgraphs.lexgraphs()
    good = 0
    for k, g in R.items():
        if g.err:
            rep.count('entries_skipped')
            rep.cov.setdefault('skipped', []).append('%s: %s' % (k, g.err[:100]))
            continue
        if g.fn.startswith(('trailing_', 'has_trailing_')):
            continue              # tests of the adjacent character: C12
        found = {}
        p = Product(g, lambda gr, key, msg: found.setdefault((gr, key), msg), lambda n, x=1: rep.count(n, x))
        p.run()
        good += 1
        rep.count('entries')
        rep.count('nodes', len(g.out))
        rep.count('transitions', sum(len(o) for o in g.out))
        rep.count('exits', len(g.exits))
        rep.count('paths_cut_by_depth', g.pruned)
        for w, n in p.stops.items():
            rep.cov.setdefault('not_followed', {})
            rep.cov['not_followed'][w] = rep.cov['not_followed'].get(w, 0) + n
        for (gr, key), msg in found.items():
            if gr in groups and (only is None or ': %s (' % only in key):
                rep.violation(key, msg)
    return good
