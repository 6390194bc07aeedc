"""Event-level view of the token-level graphs."""
import lib
from prog import short


class View:
    """event automaton of one analysed function: states are ints, transitions (event|None, state)"""

    def __init__(self, key, g):
        self.key = key
        self.g = g
        self.name = g.name
        self.label = g.label()
        self.n = g.nkeys
        self.trans = [[] for _ in range(max(1, g.nkeys))]
        for a, es in enumerate(g.out):
            for ev, b in es:
                cur = a
                for i, e in enumerate(ev):
                    if i == len(ev) - 1:
                        self.trans[cur].append((e, b))
                    else:
                        self.trans.append([])
                        nx = len(self.trans) - 1
                        self.trans[cur].append((e, nx))
                        cur = nx
                if not ev:
                    self.trans[cur].append((None, b))
        self.entry = 0
        self.exits = g.exits
        self._co = None
        self._reach_ok = None

    def coreach_ok(self):
        """states from which a successful exit is reachable"""
        if self._co is None:
            pred = {}
            for a, es in enumerate(self.trans):
                for _, b in es:
                    pred.setdefault(b, []).append(a)
            seen = {n for n, d in self.exits.items() if d[0] in ('Ok', 'val')}
            w = list(seen)
            while w:
                x = w.pop()
                for p in pred.get(x, ()):
                    if p not in seen:
                        seen.add(p)
                        w.append(p)
            self._co = seen
        return self._co

    def events(self):
        for a, es in enumerate(self.trans):
            for e, b in es:
                if e is not None:
                    yield a, e, b

    def calls(self):
        return {e for es in self.trans for e, _ in es if e is not None and e[0] == 'nt'}

    def first_after(self, state, want, stop=None):
        """first events matching want() on the paths from state (other events are skipped)"""
        seen = {state}
        w = [state]
        out = []
        while w:
            x = w.pop()
            if x in self.exits:
                out.append((('exit', self.exits[x]), x))
                continue
            for e, b in self.trans[x]:
                if e is not None and want(e):
                    out.append((e, b))
                    continue
                if e is not None and stop and stop(e):
                    continue
                if b not in seen:
                    seen.add(b)
                    w.append(b)
        return out


def nt_desc(e):
    return 'nt:' + e[1] + ('(' + ','.join(e[2]) + ')' if any(c != '_' for c in e[2]) else '')


def follow_sets(views):
    """{'nt:..' description: mask of the token kinds that can follow the successful return}"""
    out = {}
    while True:
        ch = False
        for v in views:
            k = 'nt:' + v.label
            m = out.get(k, 0)
            for d in v.exits.values():
                if d[0] not in ('Ok', 'val'):
                    continue
                x = d[7]
                if d[1].startswith('nt:'):
                    x &= out.get(d[1], 0)
                m |= x
            if m != out.get(k, 0) or k not in out:
                out[k] = m
                ch = True
        if not ch:
            return out


def prune(v, follow):
    """removes the paths on which a token follows a parsing function that never leaves that token"""
    idx = {}
    trans = []
    exits = {}
    work = []

    def st(x, m):
        k = (x, m)
        if k not in idx:
            idx[k] = len(trans)
            trans.append([])
            if x in v.exits:
                exits[idx[k]] = v.exits[x]
            else:
                work.append(k)
        return idx[k]
    st(0, None)
    while work:
        k = work.pop()
        x, m = k
        i = idx[k]
        for e, b in v.trans[x]:
            nm = m
            if e is not None:
                if e[0] == 'nt':
                    d = nt_desc(e)
                    nm = (d, follow.get(d, -1))
                elif e[0] == 'tok':
                    if m is not None and not (e[1] & m[1]):
                        continue
                    nm = None
                elif e[0] == 'scan' or e[0] == 'jump':
                    nm = None
                elif e[0] == 'back':
                    if m is None or e[1] != m[0]:
                        nm = None
            trans[i].append((e, st(b, nm)))
    v.trans = trans
    v.exits = exits
    v._co = None


class World:
    def __init__(self):
        import tokens
        self.P = lib.prog('lib')
        self.E = tokens.TokenEngine(self.P)
        self.E.lexer_fields
        gs = lib.graphs()
        # contexts whose analysis did not finish: nothing is claimed about them and about their callers
        self.incomplete = {g.label(): g.err for g in gs.values() if g.err}
        # parsing functions which are not those of the reference: new recursive ones, missing ones, other parameters
        base = lib.baseline()
        sig = {}
        for p, b in base.items():
            sig.setdefault(short(p), []).append(b['types'])
        cut = {short(p): p for p in self.E.cut}
        self.foreign = {}
        for n in sorted(set(cut) | set(tokens.NT_NAMES)):
            if n not in cut:
                self.foreign[n] = 'missing'
            elif n not in tokens.NT_NAMES:
                self.foreign[n] = 'unknown'
            elif self.P.signature(cut[n])['types'] not in sig.get(n, ()):
                self.foreign[n] = 'other parameters'
        if len(self.foreign) > 8 or len(self.incomplete) > 8:
            raise lib.Broken('analysis incomplete: %s %s' % (self.foreign, self.incomplete))
        self.views = {}
        self.by_name = {}
        for (r, c), g in gs.items():
            v = View((r, c), g)
            self.views[(r, c)] = v
            self.by_name.setdefault(g.name, []).append(v)
        follow = follow_sets(self.views.values())
        for v in self.views.values():
            prune(v, follow)
        self.follow = follow
        self.path_of = {}
        for (r, c) in gs:
            self.path_of[short(r)] = r
        self.names = self.P.atom_names(self.E.tok_ty, self.P.full(self.E.tok_ty))
        self.bit = {n: 1 << i for i, n in enumerate(self.names)}
        self.flags = self.E.flag_fields()

    def mask(self, *names):
        m = 0
        for n in names:
            m |= self.bit[n]
        return m

    def tok_names(self, m):
        return [n for i, n in enumerate(self.names) if m >> i & 1]

    def callee(self, e):
        """view of an nt event"""
        r = self.path_of.get(e[1])
        return self.views.get((r, e[2])) if r else None

    def unsure(self, v):
        """why nothing can be said about this context, or None"""
        if v.label in self.incomplete:
            return self.incomplete[v.label]
        if v.name in self.foreign:
            return self.foreign[v.name]
        for e in v.calls():
            if e[1] in self.foreign:
                return 'calls %s: %s' % (e[1], self.foreign[e[1]])
        return None

    def root(self):
        for (r, c), v in self.views.items():
            if v.name == 'parse':
                return v
        raise lib.Broken('anchor: entry point not found')

    def roots(self):
        return [v for v in self.views.values() if v.name == 'parse']

    def after_nt(self, v, e, b):
        """(event, state) directly following the successful return of the parsing function called by e"""
        me = 'nt:' + e[1] + ('(' + ','.join(e[2]) + ')' if any(c != '_' for c in e[2]) else '')
        co = v.coreach_ok()
        return [(x, s) for x, s in v.first_after(b, lambda x: x[0] in ('tok', 'nt', 'nt-err', 'scan') or
                                                 x[0] == 'back' and x[1] != me)
                if x[0] not in ('nt-err', 'exit') and s in co]

    def after_tok(self, v, b):
        co = v.coreach_ok()
        return [(x, s) for x, s in v.first_after(b, lambda x: x[0] in ('tok', 'nt', 'nt-err', 'scan'))
                if x[0] not in ('nt-err', 'exit') and s in co]

    def nt_events(self):
        for v in self.views.values():
            for a, e, b in v.events():
                if e[0] == 'nt':
                    yield v, a, e, b

    def stats(self, rep):
        rep.cov['functions_analysed'] = len({f for v in self.views.values() for f in v.g.fns})
        rep.cov['contexts'] = len(self.views)
        if self.incomplete or self.foreign or self.P.alias:
            rep.cov['not_analysed'] = dict(self.incomplete)
            rep.cov['functions_not_of_the_reference'] = dict(self.foreign)
            rep.cov['renamed_functions'] = {short(a): short(b) for a, b in self.P.alias.items()}
        rep.cov['abstract_states'] = sum(v.n for v in self.views.values())
        rep.cov['transitions'] = sum(len(t) for v in self.views.values() for t in v.trans)
