"""C14: the parser never panics: no consistency check, unwrapping or number operation of the parser can fail."""
from collections import deque
from view import World
from prog import short
import lexgraphs

WHAT = {'panic': 'a consistency check (unreachable!/panic!)', 'overflow': 'a multiplication that can exceed 32 bits'}
# after one of these the paths of a graph may not be those of the program
UNSURE = ('unknown', 'imprecise', 'blind', 'cmptext')


def what(kind):
    return WHAT.get(kind, 'a failing `%s`' % kind)


def inventory(W, rep):
    """the constructs that can panic, in everything reachable from the entry points of the parser"""
    P = W.P
    roots = [p for p in P.fns if short(p) in ('parse_program', 'parse_program_eval', 'parse_program_binding')]
    seen, w = set(roots), list(roots)
    while w:
        for q in P.callees[w.pop()]:
            if q in P.fns and q not in seen:
                seen.add(q)
                w.append(q)
    rep.count('functions', len(seen))
    kinds = {}
    for p in seen:
        for b in P.fns[p]['blocks']:
            if b.get('c'):
                continue
            t = b['t']
            k = None
            if t[0] == 'assert':
                k = t[3]
            elif t[0] == 'call' and t[1][0] == 'const' and t[1][1].get('k') == 'fn':
                n = t[1][1].get('res') or t[1][1]['fn']
                last = n.split('::')[-1]
                if 'panicking' in n:
                    k = 'unreachable'
                elif last in ('unwrap', 'expect', 'index', 'remove', 'swap_remove') and n not in P.fns:
                    k = last
            if k:
                kinds[k] = kinds.get(k, 0) + 1
    rep.cov['sites_by_kind'] = kinds
    rep.count('sites', sum(kinds.values()))


def run(rep):
    W = World()
    inventory(W, rep)
    undecided = {}
    for v in W.views.values():
        rep.count('token_graphs')
        sure = not W.unsure(v)
        for a, e, b in v.events():
            rep.count('token_steps')
            if e[0] == 'panic' and sure:
                rep.violation('%s %s %s' % (v.name, e[1], short(e[2])),
                              'a program makes %s fail in %s (while parsing in %s)' % (what(e[1]), short(e[2]), v.name))
            elif e[0] in ('panic', 'panic?'):
                k = '%s in %s from %s' % (e[1], short(e[2]), v.name)
                undecided[k] = undecided.get(k, 0) + 1
    for name, g in lexgraphs.lexgraphs().items():
        if g.err:
            rep.cov.setdefault('not_followed', {})[name] = g.err[:120]
            continue
        rep.count('lexer_graphs')
        # only what is reached without a step whose effect is unknown
        seen, w = {0}, deque([0])
        while w:
            a = w.popleft()
            if a >= len(g.out):
                continue
            for ev, b in g.out[a]:
                rep.count('lexer_steps')
                ok = True
                for e in ev:
                    if e[0] in UNSURE:
                        ok = False
                        break
                    if e[0] == 'panic':
                        rep.violation('lexer %s %s' % (e[1], short(e[2])),
                                      'a text makes %s fail in %s (while reading %s)' % (what(e[1]), short(e[2]), name))
                    elif e[0] == 'panic?':
                        k = '%s in %s from %s' % (e[1], short(e[2]), name)
                        undecided[k] = undecided.get(k, 0) + 1
                if ok and b not in seen:
                    seen.add(b)
                    w.append(b)
    rep.cov['undecided'] = undecided
    rep.floor('functions', 120)
    rep.floor('sites', 40)
    rep.floor('token_steps', 3000)
    rep.floor('lexer_steps', 1000)
    rep.explanation = (
        'Every way through every function of the parser, up to its calls of other parsing functions, and every way through '
        'the lexer, character by character, is followed over the MIR with the abstract values of the engine. Each '
        'unwrap/expect/unreachable!/index on these ways is an obligation; it is violated when a way reaches its failing side by '
        'tests of tokens, characters, scopes or values read from the text only. Failures behind a value of unknown '
        'origin are listed as undecided. Multiplications that accumulate digits are bounded by the number of digits read.')
