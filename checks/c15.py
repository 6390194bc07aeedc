"""C15: an unfinished program is reported as unfinished, and only that."""
from view import World
import lexcheck
import lexgraphs
from lexeng import EOF

CONSUME = ('tok', 'nt', 'scan')
# what is decided after these does not concern the next token
OTHER = ('lvar', 'scopekind', 'stk-end', 'streq', 'nt-err', 'lexerr', 'extern')


def run(rep):
    W = World()
    W.stats(rep)
    eof = W.mask('Eof')
    full = 0
    for n in W.names:
        full |= W.bit[n]
    sep = W.mask(*[n for n in W.names if n in ('LineTerm', 'Punct.Semi')])
    for v in W.views.values():
        if W.unsure(v):
            rep.count('contexts_skipped')
            continue
        pred = {}
        for a, es in enumerate(v.trans):
            for e, b in es:
                pred.setdefault(b, []).append((a, e))
        co = v.coreach_ok()
        for a, e, b in v.events():
            if e[0] != 'made' or len(e) < 6:
                continue
            rep.count('errors_made')
            _, fn, kind, prev, nxt, nxt2 = e
            ahead = nxt
            if nxt > 0 and nxt & ~sep == 0:
                ahead = nxt2
            if kind.startswith('UnexpectedEOF'):
                rep.count('errors_for_the_end')
                if prev > 0 and prev & eof:
                    continue
                if ahead > 0 and not ahead & eof or prev > 0 and nxt == -1 and origin(pred, a):
                    rep.violation('early end %s' % v.name,
                                  'in %s: the error for an unexpected end (%s) although the token is %s'
                                  % (v.label, fn, ' '.join(W.tok_names(ahead if ahead > 0 else prev))[:120]))
                elif prev > 0 and not prev & sep and ahead > 0 and ahead & eof and ahead != full and viable(v, pred, a, co, True) is False:
                    rep.violation('hopeless end %s' % v.name,
                                  'in %s: the error for an unexpected end (%s) although no continuation of the text is accepted after %s'
                                  % (v.label, fn, ' '.join(W.tok_names(prev))[:120]))
                continue
            if not kind.startswith('SyntaxError'):
                rep.count('errors_of_unknown_kind')
                continue
            rep.count('errors_for_tokens')
            if prev > 0 and prev & eof:
                rep.violation('end as token %s' % v.name,
                              'in %s: the end of the text is rejected like a wrong token (%s)' % (v.label, fn))
            elif prev == -1 and nxt > 0 and nxt & eof and nxt != full and viable(v, pred, a, co):
                rep.violation('end not seen %s' % v.name,
                              'in %s: an error for the next token (%s) that may be the end of the text, which is then not reported '
                              'as unfinished' % (v.label, fn))
    # the tokenizer
    lexcheck.run(rep, ('token', 'text'), 'end')
    for k, g in lexgraphs.lexgraphs().items():
        if g.err or g.fn.startswith(('trailing_', 'has_trailing_')):
            continue
        for n, d in g.exits.items():
            if d[0].startswith("Err(LexerErr('UnexpectedEOF'"):
                rep.count('lexer_ends')
                m = d[1][0]
                if isinstance(m, int) and m > 0 and not m & EOF:
                    rep.violation('early end, lexer %s' % k,
                                  'in %s: the error for an unexpected end although a character follows' % g.fn)
            elif k == 'heredoc' and d[0].startswith('Err(') and d[1][0] == EOF:
                rep.violation('end not seen, lexer %s' % k, 'in %s: the end of the text is rejected like a wrong character' % g.fn)
    rep.floor('errors_made', 100)
    rep.floor('errors_for_the_end', 15)
    rep.floor('lexer_ends', 15)
    rep.explanation = (
        'Every place where an error is made, in every parsing function and context, on every path: the kind of the error is '
        'compared with the set of kinds the offending token can have there (the one just read, or the next one if the parser '
        'decided on it without reading it), where that token could still be followed by an accepted program. In the tokenizer, every '
        'exit with an error at the end of the text in the product with the reference automaton of spec/lex.py.')


def origin(pred, a):
    """the decision just before was made on the token read"""
    for p, e in pred.get(a, ()):
        if e is None:
            continue
        return e[0] == 'tok'
    return False


def viable(v, pred, a, co, unknown=False):
    """before the next token was tested, the text could be continued"""
    seen, w = {a}, [a]
    hit = False
    while w:
        x = w.pop()
        if x in co:
            hit = True
        for p, e in pred.get(x, ()):
            if e is not None and e[0] in OTHER:
                return unknown
            if e is not None and e[0] in CONSUME:
                # the same part of the program with another token after it
                if e[0] == 'nt' and any(f and f[0] == 'nt' and f[1:3] == e[1:3] and b in co for f, b in v.trans[p]):
                    hit = True
                continue
            if p not in seen:
                seen.add(p)
                w.append(p)
    return hit
