"""C08: looking ahead and going back do not change the tokens; errors are not lost; the whole text is read."""
from view import World
import buffers

WHAT = {
    'stale': 'a token looked at earlier is taken although the position has moved since then',
    'unflushed': 'text is read directly from the source while a token looked at in advance is still kept: '
                 'that text is read twice',
    'jump': 'the position is set to a place that is not a remembered one',
}


def run(rep):
    W = World()
    W.stats(rep)
    lits = W.mask('IntegerLit', 'FloatLit', 'BignumLit', 'ImaginaryLit')
    for v in W.views.values():
        if W.unsure(v):
            rep.count('contexts_skipped')
            continue
        co = v.coreach_ok()
        after_err = {}
        for a, e, b in v.events():
            rep.count('events_checked')
            k = e[0]
            if k in WHAT and b in co:
                rep.violation('%s %s' % (k, v.name), 'in %s: %s (%s)' % (v.label, WHAT[k], ' '.join(map(str, e[1:]))[:120]))
            elif k == 'look':
                rep.count('look_aheads')
            elif k == 'back':
                rep.count('positions_restored')
            elif k == 'nt':
                rep.count('sub_parser_calls')
                if e[1] in W.E.CLEAN_ENTRY:
                    rep.count('switches_to_text_mode')
                    if not e[11]:
                        rep.violation('pending %s %s' % (v.name, e[1]),
                                      'in %s: %s reads the text directly, but a token looked at in advance may still be kept'
                                      % (v.label, e[1]))
            elif k in ('nt-err', 'lexerr', 'scan'):
                rep.count('failures_followed')
            if k == 'made':
                rep.count('rejections')
                if b in co:
                    rep.violation('lost error %s' % v.name,
                                  'in %s: the parse can still succeed after it has been rejected (%s)' % (v.label, e[1]))
            if k == 'nt-err' and b in co:
                after_err.setdefault(e[1], b)
        for n, b in after_err.items():
            rep.violation('lost %s %s' % (v.name, n),
                          'in %s: after %s failed the parse can still succeed: its error is lost' % (v.label, n))
        back_over(v, rep, lits)
        for n, d in v.exits.items():
            rep.count('exits')
            if d[0] not in ('Ok', 'val'):
                continue
            rep.count('successful_exits')
            if not d[4]:
                rep.violation('kept %s' % v.name, 'in %s: on return a token is kept that is not the next one of the text' % v.label)
            if d[6] or d[1] == 'error':
                rep.violation('swallowed %s' % v.name,
                              'in %s: succeeds although a part of the text was rejected, without going back before it' % v.label)
            if v.name in W.E.CLEAN_EXIT and not d[9]:
                rep.violation('pending return %s' % v.name, 'in %s: on return a token looked at in advance is kept' % v.label)
    buffers.check(W.P, rep)
    roots = W.roots()
    eof = W.mask('Eof')
    seps = W.mask('Eof', 'LineTerm', 'Punct.Semi')
    for v in roots:
        if W.unsure(v):
            continue
        for n, d in v.exits.items():
            if d[0] not in ('Ok', 'val'):
                continue
            rep.count('ends_of_the_whole_parse')
            m, m2 = d[7], d[8]
            # the next token is the end of the text, or a separator followed by it
            if m & ~seps or (m & ~eof and m2 & ~eof):
                rep.violation('end', 'the whole parse succeeds while text remains: next token %s, then %s'
                              % (' '.join(W.tok_names(m))[:100], ' '.join(W.tok_names(m2))[:100] if m2 != -1 else 'anything'))
    rep.floor('ends_of_the_whole_parse', 1)
    rep.floor('buffer_states', 20)
    rep.floor('positions_restored', 1)
    rep.floor('switches_to_text_mode', 20)
    rep.floor('failures_followed', 300)
    rep.floor('look_aheads', 100)
    rep.explanation = (
        'In every parsing function and calling context the position, the two look-ahead buffers and the remembered positions are '
        'tracked on every path of the MIR. Rules: a buffered token is only taken while the position is the one it was read at; the '
        'text is only read directly while no token is buffered; a position is only set to a remembered one; going back does not '
        'cross a sub-parser; after a sub-parser failed or a malformed token was met no successful return is reachable unless the '
        'position was restored to the one before it; on a successful return the buffers agree with the position; at the successful '
        'end of the whole parse the next token is the end of the text. The result of every token-level function of the tokenizer is '
        'the same for every content the buffers can have.')


def back_over(v, rep, lits):
    """no sub-parser between a position and the return to it: its variables and scopes are not undone"""
    seen = {(0, ())}
    w = [(0, ())]
    while w:
        x, s = w.pop()
        if x in v.exits:
            continue
        for e, b in v.trans[x]:
            n = s
            if e is not None and e[0] == 'nt':
                # a numeric literal defines nothing
                if e[9] & ~lits and e[3] not in s and len(s) < 6:
                    n = tuple(sorted(s + (e[3],)))
            elif e is not None and e[0] == 'back':
                if e[1] in s:
                    rep.violation('back %s' % v.name,
                                  'in %s: goes back over a sub-parser to the position after %s: what it defined is not undone'
                                  % (v.label, e[1]))
                n = ()
            if (b, n) not in seen:
                seen.add((b, n))
                w.append((b, n))
