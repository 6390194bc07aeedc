"""C11: literals have the specified extent and content."""
import re
import c10
from view import World

LIT = 'parse_interporated_string_literal'
SCAN = 'read_string_literal_double'
FORM = re.compile(r'^(None|argnode:\d|tok\.Open\w+\.\d|scan:\w+\.Open\w+\.\d|\d+)$')


def run(rep):
    c10.GROUP, g = ('text',), c10.GROUP
    try:
        c10.run(rep)
    finally:
        c10.GROUP = g
    resume(rep)


def wanted(prev, k):
    """description of the k-th delimiter (0 opening, 1 closing, 2 level) of the literal whose beginning was just read"""
    if prev.startswith('tok:'):
        x, kind = 'tok', prev[4:]
    elif prev.startswith('scan:'):
        x, kind = prev, None
    else:
        return None
    out = set()
    if kind in (None, 'OpenString'):
        out.add('%s.OpenString.%d' % (x, k + 1))
    if kind in (None, 'OpenCommand'):
        out.add('None' if k == 0 else '%s.OpenCommand.%d' % (x, k))
    if kind is None and 'literal' in prev:
        # a here document has no delimiters
        out.add('None' if k < 2 else '0')
    if not out or kind not in (None, 'OpenString', 'OpenCommand'):
        return None
    return out


NAMES = ('opening delimiter', 'closing delimiter', 'nesting level')


def resume(rep):
    """a literal that goes on after an interpolation goes on with its own delimiters and at the nesting level it had reached"""
    W = World()
    opened = W.mask('OpenString')
    for v in W.views.values():
        if W.unsure(v):
            rep.count('contexts_skipped')
            continue
        for a, e, b in v.events():
            if e[0] != 'nt' or e[1] != LIT or len(e[6]) != 4:
                continue
            rep.count('interpolated_literals')
            for k in range(3):
                d = e[6][k + 1]
                w = wanted(e[3], k)
                if w is None or not FORM.match(d):
                    rep.count('not_recognised')
                    continue
                rep.count('delimiters_handed_on')
                if d not in w:
                    rep.violation('resume %s %s' % (v.name, NAMES[k]),
                                  'in %s: the literal goes on after its interpolation with %s as %s, its beginning said %s'
                                  % (v.label, d, NAMES[k], ' or '.join(sorted(w))))
        if v.name == LIT:
            inside(rep, v, opened)


def inside(rep, v, opened):
    # (source of the delimiters, source of the level)
    start = ('argnode', 'argnode')
    seen = {(v.entry, start)}
    work = list(seen)
    while work:
        n, st = work.pop()
        for e, b in v.trans[n]:
            new = st
            if e is not None and e[0] == 'tok' and e[1] and not e[1] & ~opened:
                new = ('tok', 'tok')
            elif e is not None and e[0] == 'scan' and e[1] == SCAN and len(e[2]) == 3:
                rep.count('continuations')
                for k in range(3):
                    d, src = e[2][k], st[0 if k < 2 else 1]
                    if not FORM.match(d):
                        rep.count('not_recognised')
                        continue
                    ok = {'argnode': 'argnode:%d' % (k + 2), 'tok': 'tok.OpenString.%d' % (k + 1),
                          'scan': 'scan:%s.OpenString.%d' % (SCAN, k + 1)}
                    # the delimiters said by the piece before are the same ones
                    good = {ok[src]} | ({ok['scan']} if k < 2 and st[1] == 'scan' else set())
                    rep.count('delimiters_handed_on')
                    if d not in good:
                        rep.violation('resume inside %s' % NAMES[k],
                                      'in %s: after an interpolation the literal goes on with %s as %s, the text before it said %s'
                                      % (v.label, d, NAMES[k], ' or '.join(sorted(good))))
                new = (st[0], 'scan')
            if (b, new) not in seen:
                seen.add((b, new))
                work.append((b, new))
