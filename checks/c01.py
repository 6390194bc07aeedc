"""C01: parsing modes follow the nesting of the source."""
from view import World
import lib

LOOP = 'suppress_do_block'
MUL = 'suppress_mul_assign'
ACC = 'suppress_acc_assign'
CLOSER = {'RParen': 'Punct.RParen', 'RBracket': 'Punct.RBracket', 'RBrace': 'Punct.RBrace'}
OPENER = {'tok:Punct.LParen': 'RParen', 'tok:Punct.LBracket': 'RBracket', 'tok:Punct.LBrace': 'RBrace'}


def branching_fns(P, pty, fields):
    """{flag: functions that branch on it}"""
    names = [f['n'] for f in P.types[pty]['variants'][0]['fields']]
    out = {f: set() for f in fields}
    for p, f in P.fns.items():
        holds = {}
        for b in f['blocks']:
            if b.get('c'):
                continue
            for s in b['s']:
                if s[0] != '=':
                    continue
                dst, rv = s[1], s[2]
                pl = None
                if rv[0] == 'use' and rv[1][0] in ('cp', 'mv'):
                    pl = rv[1][1]
                elif rv[0] == 'un' and rv[2][0] in ('cp', 'mv'):
                    pl = rv[2][1]
                if pl is None:
                    continue
                h = None
                if len(pl) == 1:
                    h = holds.get(pl[0])
                elif pl[-1][0] == 'F' and P.tdef(P.inner(f['locals'][pl[0]])) == P.tdef(pty) and len(pl) == 3:
                    h = names[pl[-1][1]]
                if h in out and len(dst) == 1:
                    holds[dst[0]] = h
            t = b['t']
            if t[0] == 'switch' and t[1][0] in ('cp', 'mv'):
                pl = t[1][1]
                h = None
                if len(pl) == 1:
                    h = holds.get(pl[0])
                elif len(pl) == 3 and pl[-1][0] == 'F' and P.tdef(P.inner(f['locals'][pl[0]])) == P.tdef(pty):
                    h = names[pl[-1][1]]
                if h in out:
                    out[h].add(p)
    return out


def fl(e, f):
    for n, v in e[4]:
        if n == f:
            return v
    raise lib.Broken('anchor: parser mode %s not found' % f)


def run(rep):
    W = World()
    W.stats(rep)
    for f in (LOOP, MUL, ACC):
        if f not in W.flags:
            raise lib.Broken('anchor: parser mode %s not found' % f)
    br = branching_fns(W.P, W.E.ty_of_def('parser::Parser'), W.flags)
    rep.cov['mode_tests'] = sum(len(v) for v in br.values())
    rep.floor('mode_tests', 3)
    live = [f for f in W.flags if br[f]]
    unsure = {v.label: w for v in W.views.values() for w in [W.unsure(v)] if w}
    if unsure:
        rep.cov['contexts_not_judged'] = unsure
    allv = {v for v in W.views.values() if v.label not in unsure}

    # which contexts can be influenced by the value of a mode at their entry
    sens = {}
    for f in W.flags:
        s = {v for v in allv if v.g.fns & br[f]}
        ch = True
        # a function that branches only after having set the mode is still counted as sensitive
        calls = {}
        for v, a, e, b in W.nt_events():
            x = fl(e, f)
            if x not in (0, 1) and not e[7]:
                calls.setdefault(v, set()).add(W.callee(e))
        while ch:
            ch = False
            for v in allv - s:
                if any(c is None or c in s for c in calls.get(v, ())):
                    s.add(v)
                    ch = True
        sens[f] = s

    # (a) restored on every successful exit
    for v in allv:
        for d in v.exits.values():
            if d[0] in ('Ok', 'val'):
                rep.count('success_exits')
                for n, x in d[2]:
                    if n not in live:
                        continue
                    rep.violation('restore %s %s' % (v.name, n),
                                  'rule a: %s returns successfully with %s changed to %s (after %s)' % (v.label, n, x, d[1]))
    rep.floor('success_exits', 200)

    # (b) statements are not influenced by the modes of the construct around them
    for r in W.roots():
        for a, e, b in r.events():
            if e[0] != 'nt':
                continue
            for f in live:
                rep.count('initial_modes')
                if fl(e, f) != 0:
                    rep.violation('initial %s' % f, 'rule b: the program is parsed with %s=%s' % (f, fl(e, f)))
            stm = W.callee(e)
            for f in (LOOP, MUL, ACC):
                rep.count('statement_lists')
                if stm in sens[f]:
                    rep.violation('statements %s' % f,
                                  'rule b: the statements parsed by %s depend on %s of the surrounding construct' % (stm.label, f))
    rep.floor('initial_modes', 3)

    # (c) inside brackets `do` belongs to the inner expression
    memo = {}

    def region(v, start, closer, why):
        key = (v.key, start, closer)
        if key in memo:
            return
        memo[key] = True
        cm = W.bit[CLOSER[closer]]
        seen = {start}
        w = [start]
        while w:
            x = w.pop()
            for e, b in v.trans[x]:
                go = True
                if e is not None:
                    if e[0] == 'tok' and e[1] & cm:
                        if e[1] == cm:
                            go = False
                    elif e[0] == 'nt':
                        c = W.callee(e)
                        if fl(e, LOOP) != 0 and not e[7]:
                            rep.count('bracketed_calls')
                            if c is None or c in sens[LOOP]:
                                if c is not None and closer in e[2]:
                                    region(c, 0, closer, why)
                                else:
                                    rep.violation('bracket %s->%s' % (v.name, e[1]),
                                                  'rule c: %s calls %s between %s and its closing bracket with %s=%s'
                                                  % (v.label, e[1], why, LOOP, fl(e, LOOP)))
                        else:
                            rep.count('bracketed_calls')
                        if closer in e[2]:
                            go = False
                if go and b not in seen:
                    seen.add(b)
                    w.append(b)

    for v in allv:
        co = v.coreach_ok()
        for a, e, b in list(v.events()):
            if e[0] == 'tok' and b in co:
                n = W.tok_names(e[1])
                if len(n) == 1 and 'tok:' + n[0] in OPENER:
                    region(v, b, OPENER['tok:' + n[0]], 'the bracket consumed in ' + v.name)
    rep.floor('bracketed_calls', 30)

    # (d) the `do` of a loop header or lambda is not taken by the expression before it
    do = W.bit['Reserved.Do']
    for v in allv:
        co = v.coreach_ok()
        done = {}
        for a, e, b in v.events():
            if e[0] != 'nt' or b not in co:
                continue
            k = (b, e[1], e[2], fl(e, LOOP))
            if k in done:
                continue
            done[k] = 1
            c = W.callee(e)
            nx = W.after_nt(v, e, b)
            if any(x[0] == 'tok' and x[1] & do and s in co for x, s in nx):
                rep.count('do_after_expression')
                if fl(e, LOOP) != 1 and (c is None or c in sens[LOOP]):
                    rep.violation('header %s->%s' % (v.name, e[1]),
                                  "rule d: %s takes 'do' after %s, which was called with %s=%s and takes it as a block"
                                  % (v.label, e[1], LOOP, fl(e, LOOP)))
    rep.floor('do_after_expression', 4)

    # (e) commas separate list elements
    comma = W.bit['Punct.Comma']
    for v in allv:
        co = v.coreach_ok()
        done = set()
        for a, e, b in v.events():
            if e[0] != 'nt' or b not in co:
                continue
            k = (b, e[1], e[2], fl(e, MUL), fl(e, ACC))
            if k in done:
                continue
            done.add(k)
            c = W.callee(e)
            nx = W.after_nt(v, e, b)
            cs = [(x, s) for x, s in nx if x[0] == 'tok' and x[1] & comma and s in co]
            if not cs:
                continue
            # the element is handed on to the parser of a multiple assignment
            me = e[1] + '<'
            nn = [y for x, s in cs for y, _ in W.after_tok(v, s)]
            if nn and all(y[0] == 'nt' and any(z.startswith(me) or '(' + me in z for z in y[6]) for y in nn):
                rep.count('first_of_multiple_assignment')
                continue
            rep.count('list_elements')
            if fl(e, MUL) != 1 and fl(e, ACC) != 1 and (c is None or c in sens[MUL]):
                rep.violation('list %s->%s' % (v.name, e[1]),
                              'rule e: in %s a comma after %s separates elements, but it was called with %s=%s and takes '
                              'the comma as part of an assignment' % (v.label, e[1], MUL, fl(e, MUL)))
    rep.floor('list_elements', 10)

    rep.explanation = ('Abstract interpretation of the MIR of every parsing function in every calling context; per call '
                       'of a parsing function the value of each mode is known as constant/unchanged. Rules: (a) modes equal '
                       'entry value at every Ok exit; (b) statement lists do not depend on modes; (c) calls between a '
                       'consumed opening bracket and its closer run with do-blocks enabled; (d) an expression followed by '
                       "a consumed 'do' was parsed with do-blocks suppressed; (e) an expression followed by a separating "
                       "comma was parsed with multiple assignment suppressed; (f) 'defined?' mode only for its operand.")
