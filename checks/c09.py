"""C09: parsing terminates: every loop and every recursion consumes text."""
from view import World
import re
import c08
import lexgraphs

# a part of a node: recursion on it ends
PART = re.compile(r'argnode:\d+\.')


def sccs(nodes, succ):
    """strongly connected components with a cycle (iterative Tarjan)"""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


def tokens_level(W, rep):
    eof = W.mask('Eof')
    unsure = {v.label for v in W.views.values() if W.unsure(v)}
    nullable = set()

    def progress(e):
        if e[0] == 'tok':
            return not e[1] & eof
        if e[0] == 'scan':
            return True
        if e[0] == 'iter':
            return e[1] != 'endless'
        if e[0] == 'count':
            return True
        if e[0] == 'nt':
            c = W.callee(e)
            return c is not None and c.label not in nullable and c.label not in unsure
        return False

    def walk(v):
        """-> ({state: consumed something? (set of bools)}, calls before anything is consumed)"""
        seen = {(0, False)}
        w = [(0, False)]
        calls = set()
        empty = False
        while w:
            x, p = w.pop()
            if x in v.exits:
                d = v.exits[x]
                if d[0] in ('Ok', 'val') and not p:
                    empty = True
                continue
            for e, b in v.trans[x]:
                q = p
                if e is not None:
                    if e[0] == 'nt' and not p and not any(PART.match(d) for d in e[6]):
                        calls.add((e[1], e[2]))
                    if e[0] == 'back' and e[1] == 'entry':
                        q = False
                    elif not p and e[0] in ('tok', 'scan', 'nt') and progress(e):
                        q = True
                if (b, q) not in seen:
                    seen.add((b, q))
                    w.append((b, q))
        return calls, empty
    while True:
        ch = False
        first = {}
        for v in W.views.values():
            calls, empty = walk(v)
            first[v.label] = calls
            if empty and v.label not in nullable:
                nullable.add(v.label)
                ch = True
        if not ch:
            break
    rep.cov['parsers_that_may_consume_nothing'] = sorted(nullable)
    # recursion without consuming anything
    lab = {}
    for v in W.views.values():
        lab[v.label] = [W.callee(('nt',) + c).label for c in first[v.label] if W.callee(('nt',) + c)]
        rep.count('calls_before_the_first_token', len(lab[v.label]))
    for c in sccs(list(lab), lambda x: lab[x]):
        if any(x in unsure for x in c):
            continue
        rep.violation('recursion %s' % ' '.join(sorted({x.split('(')[0] for x in c}))[:80],
                      'unbounded recursion: %s call each other without consuming a token' % ', '.join(sorted(c)))
    # loops
    for v in W.views.values():
        if v.label in unsure:
            continue
        rep.count('loops_checked', v.n)

        def succ(x):
            return [b for e, b in v.trans[x] if e is None or not progress(e)] if x not in v.exits else []
        for c in sccs(range(len(v.trans)), succ):
            cs = set(c)
            ev = sorted({str(e)[:60] for x in c for e, b in v.trans[x] if b in cs and e is not None and not progress(e)})
            rep.violation('loop %s' % v.name, 'in %s: a loop that consumes no token: %s' % (v.label, '; '.join(ev)[:300]))


def characters_level(rep):
    """every loop of the lexer reads a character, takes an item of an iterator or counts"""
    for k, g in lexgraphs.lexgraphs().items():
        if g.err:
            rep.count('lexer_entries_skipped')
            continue
        rep.count('lexer_entries')
        rep.count('lexer_states', len(g.out))

        def moves(ev):
            return any(e[0] in ('ch', 'count', 'hskip', 'unknown', 'cmptext') or e[0] == 'iter' and e[1:] != ('endless',) for e in ev)

        def succ(x):
            return [b for ev, b in g.out[x] if not moves(ev)]
        for c in sccs(range(len(g.out)), succ):
            w = sorted({'%s' % (g.where[x][0].split('::')[-1]) for x in c if x < len(g.where) and g.where[x]})
            rep.violation('lexer loop %s' % (w[0] if w else g.fn), 'in %s: a loop in %s that reads no character' % (g.fn, ', '.join(w)))


def run(rep):
    W = World()
    W.stats(rep)
    tokens_level(W, rep)
    lits = W.mask('IntegerLit', 'FloatLit', 'BignumLit', 'ImaginaryLit')
    for v in W.views.values():
        if not W.unsure(v):
            c08.back_over(v, rep, lits)
    characters_level(rep)
    rep.floor('calls_before_the_first_token', 50)
    rep.floor('loops_checked', 300)
    rep.floor('lexer_states', 5000)
    rep.explanation = (
        'Strongly connected components of (1) the event graph of every parsing function without the events that consume a token, '
        'call a sub-parser that always consumes one, take the next item of a finite iterator or count; (2) the call graph of the '
        'sub-parsers before anything is consumed, recursion on a part of an argument excepted; (3) the character-level graphs of '
        'the lexer without the steps that consume a character. Each component is a violation. Also, no sub-parser lies between a '
        'position and the return to it, so no part of the text is parsed again and again.')
