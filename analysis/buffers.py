"""The result of every token-level function of the lexer must not depend on the tokens kept in advance."""
import tokens
from core import State, Frame, some, NONE, UNIT, TOP
from prog import short


class BufferEngine(tokens.TokenEngine):
    MAXSTATES = 3000

    def functions(self):
        P = self.P
        out = []
        for p in sorted(self.stream_fns):
            fn = P.fns[p]
            if not self.selfarg_is_ref(fn) or fn['argc'] != 1:
                continue
            r = P.ty(fn['locals'][0])
            if r and r.get('def') == tokens.RES and P.tdef(r['variants'][0]['fields'][0]['t']) == 'Annot':
                out.append(p)
        return out

    def run_fn(self, path, kinds, buf, skip):
        """kinds: masks of the next tokens ('ERR' for a malformed one); buf, skip: index of the token kept, or None"""
        P = self.P
        fn = P.fns[path]
        self.root = path
        st = State.__new__(State)
        st.gs = 0
        st.frames, st.heap, st.syms, st.nid, st.ev, st.g = [], {}, {}, 0, [], None
        pos = self.new_pos(st, ('prim', 'entry'))
        cells = [pos]
        toks = []
        for m in kinds:
            if m == 'ERR':
                self.pos_set(st, cells[-1], 'tok', ('prim', 'ERR'))
                break
            tok = self.new_sym(st, self.tok_ty, ('tok',), m)
            nx = self.new_pos(st, tok)
            self.pos_set(st, cells[-1], 'tok', tok)
            self.pos_set(st, cells[-1], 'next', nx)
            toks.append(tok)
            cells.append(nx)

        def kept(i):
            return NONE if i is None else some(('adt', 'Annot', 0, (toks[i], TOP)))
        vals = {'pos': pos, 'buf': kept(buf), 'buf_skip_lt': kept(skip)}
        st.heap['self'] = ('adt', tokens.LEXER, 0, tuple(vals.get(n, TOP) for n in self.lexer_fields))
        st.heap['$cells'] = ('tup', tuple(cells))
        st.heap['$toks'] = ('tup', tuple(toks))
        st.frames.append(Frame(fn, 0, {1: ('ref', ('H', 'self'), ())}, None, -1))
        P.prepare(fn)
        g = self.explore(st)
        return frozenset(g.exits.values())

    def exit_desc(self, st):
        ret = st.heap.pop('$ret', UNIT)
        lexloc = ('loc', ('H', 'self'), ())
        if ret[0] != 'adt' or ret[1] != tokens.RES:
            return ('?',)
        p = self.lexf(st, lexloc, 'pos')
        cells = st.heap['$cells'][1]
        at = cells.index(p) if p in cells else ('error' if self.is_pos(st, p) and
                                                self.pos_get(st, p, 'prev') == ('prim', 'error') else '?')
        if ret[2] == 1:
            return ('Err', at)
        tok = ret[3][0]
        tok = tok[3][0] if tok[0] == 'adt' and tok[1] == 'Annot' else tok
        toks = st.heap['$toks'][1]
        coh = all(self.coherent(st, lexloc, f, self.lexf(st, lexloc, f)) for f in ('buf', 'buf_skip_lt'))
        return ('Ok', toks.index(tok) if tok in toks else '?', at, coh)


def check(P, rep):
    E = BufferEngine(P)
    E.lexer_fields
    E.skip_bits()
    names = P.atom_names(E.tok_ty, P.full(E.tok_ty))
    bit = {n: 1 << i for i, n in enumerate(names)}
    plain = E.all_mask & ~E.skip_bits() & ~E.eof_bit()
    fns = E.functions()
    rep.cov['token_functions'] = sorted(short(p) for p in fns)
    for p in fns:
        scen = [('a token', (plain,), [(b, s) for b in (None, 0) for s in (None, 0)]),
                ('the end of the text', (bit['Eof'],), [(b, s) for b in (None, 0) for s in (None, 0)]),
                ('a line end and a token', (bit['LineTerm'], plain), [(b, s) for b in (None, 0) for s in (None, 1)]),
                ('a malformed token', ('ERR',), [(None, None)]),
                ('a line end and a malformed token', (bit['LineTerm'], 'ERR'), [(None, None), (0, None)])]
        for what, kinds, bufs in scen:
            ref = None
            for b, s in bufs:
                r = E.run_fn(p, kinds, b, s)
                rep.count('buffer_states')
                for d in r:
                    if d[0] == 'Ok' and not d[3]:
                        rep.violation('kept %s' % short(p), '%s: before %s it keeps a token that is not the next one' % (short(p), what))
                    if d[0] == 'Ok' and d[1] == '?':
                        rep.violation('token %s' % short(p), '%s: before %s it returns a token that is not of the text' % (short(p), what))
                    if d[0] == 'Err' and 'ERR' not in kinds:
                        rep.violation('error %s' % short(p), '%s: fails before %s' % (short(p), what))
                r = frozenset(x[:3] for x in r)
                if ref is None:
                    ref = r
                elif r != ref:
                    rep.violation('depends %s' % short(p),
                                  '%s: before %s the result depends on the tokens looked at before: %s with a kept token (%s, %s), %s without'
                                  % (short(p), what, sorted(r, key=str), b, s, sorted(ref, key=str)))
