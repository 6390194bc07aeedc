"""C12: tokens record their extent, and what is next to them is decided by the adjacent character."""
import lexgraphs
import lexeng
from lexeng import FULL, EOF, BIT, mask_of
import lib

# what the predicates on the text next to a token say yes to
SPACE = mask_of(lambda c: c in (9, 10, 12, 13, 32))
NEXT = {'trailing_lparen': ('an opening parenthesis', mask_of(lambda c: c == 40)), 'trailing_space': ('white space', SPACE),
        'has_trailing_space': ('white space', SPACE)}


def run(rep):
    R = lexgraphs.lexgraphs()
    lost = 0
    for k, g in R.items():
        if g.err:
            lost += 1
            rep.cov.setdefault('not_followed', {})[k] = g.err[:120]
            continue
        rep.count('entries')
        if g.fn in NEXT:
            predicate(rep, g)
            continue
        for n, d in g.exits.items():
            if d[0] == 'dead' or d[0].startswith('Err'):
                continue
            for a, b in d[2]:
                rep.count('locations')
                if a == '?' and b == '?' or b in ('?', 'prev(?)'):
                    rep.count('locations_not_followed')
                elif (a, b) == ('here', 'here') or (a in ('0', '?') and b == 'prev(here)'):
                    pass
                elif a == '?' and b == 'here':
                    rep.count('locations_not_followed')
                else:
                    what = {'here': 'ends one character after it', '0': 'ends with its first character'}.get(b, 'does not end with its last character') \
                        if a in ('0', '?') else 'begins after its first character'
                    rep.violation('extent %s' % g.fn, 'in %s (%s): the location of %s %s' % (g.fn, k, d[0][:60], what))
    if lost > 12:
        raise lib.Broken('%d entry points of the tokenizer are not followed' % lost)
    rep.floor('locations', 40)
    rep.floor('predicates', 2)
    rep.cov['rule'] = ('The two ends of the location in every token returned by the tokenizer, as symbolic positions: the first character of the token '
                       'and the byte before the position reached. The functions that look at the character next to a token say yes exactly on '
                       'the specified set of characters at that position.')


def predicate(rep, g):
    what, want = NEXT[g.fn]
    for n, d in g.exits.items():
        if d[0] == 'dead':
            continue
        yes = None
        if d[0] == '0':
            yes, all_ = 0, d[1][0]
        elif d[0] == '1':
            yes, all_ = d[1][0], d[1][0]
        elif d[0].startswith('next in '):
            yes, all_ = int(d[0][8:]), d[1][0]
        if yes is None:
            rep.count('predicates_not_followed')
            continue
        rep.count('predicates')
        if yes & ~want:
            rep.violation('next %s' % g.fn, '%s says yes before %s' % (g.fn, show(yes & ~want)))
        if all_ & ~yes & want:
            rep.violation('next %s' % g.fn, '%s says no before %s' % (g.fn, show(all_ & ~yes & want)))


def show(m):
    if m & EOF:
        return 'the end of the text'
    return repr(chr(lexeng.cps_of(m)[0])) if m else '?'
