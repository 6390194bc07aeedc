"""Token-level analysis of the recursive-descent parser.

The lexer is abstracted as a stream of tokens; every mutually recursive parsing function is a
non-terminal (calls to it are cut and replaced by its contract), every other function is analysed
in the context of its callers.  The result, per non-terminal, is a graph of abstract states whose
edges carry the parser-visible events (token consumed, non-terminal called, node built, node
dropped, variable declared, possible panic, ...).
"""
from models import *

PARSER = 'parser::Parser'
LEXER = 'parser::lexer::Lexer'
POS = -2

# non-terminals of the grammar as they exist today; functions added later are analysed in line
NT_NAMES = frozenset('''
alias_name check_lhs here_command here_double parse_arg parse_arg_add
parse_arg_assign parse_arg_bitand parse_arg_bitor parse_arg_comp parse_arg_eq parse_arg_logical_and
parse_arg_logical_or parse_arg_mul parse_arg_range parse_arg_shift parse_arg_ternary parse_arglist
parse_arglist_block parse_begin parse_block parse_break parse_break_sub parse_case
parse_class parse_class_def_name parse_command parse_comp_stmt parse_def parse_def_params
parse_exponent parse_expr parse_for parse_formal_params parse_function_args parse_hash_literal
parse_heredocument parse_if parse_if_then parse_interporated_string_literal parse_lambda_literal
parse_method_call parse_mul_assign parse_mul_assign_rhs parse_mul_assign_rhs_if_allowed parse_next
parse_not parse_percent_notation parse_primary parse_primary_method parse_regexp parse_return
parse_singleton_class parse_stmt parse_string_literal parse_super parse_symbol parse_template
parse_unary parse_unary_minus parse_unless parse_while parse_yield
'''.split())


class TokenEngine(Models):
    # no token has been looked at in advance when these functions return / are called (C08 checks it)
    CLEAN_EXIT = {'parse_template'}
    CLEAN_ENTRY = {'parse_percent_notation', 'parse_heredocument', 'parse_regexp', 'here_command', 'here_double',
                   'parse_interporated_string_literal', 'parse_template'}

    def __init__(self, prog, nts=None):
        super().__init__(prog)
        P = prog
        self.tok_ty = P.tyname['token::TokenKind']
        self.annot_tok = P.tyname['Annot<token::TokenKind>']
        self.node_ty = P.tyname['node::NodeKind']
        self.lexfns = {p for p in P.fns if '::{closure' not in p and self.selfdef(p) == LEXER}
        self.read_token = [p for p in self.lexfns if short(p) == 'read_token']
        if len(self.read_token) != 1:
            raise AnalysisError('anchor: Lexer::read_token not found')
        self.read_token = self.read_token[0]
        self.codefns = {p for p in P.fns if self.touches_code(P.fns[p])}
        self.stream_fns = set()
        for p in self.lexfns:
            r = P.reach([p], stop=lambda q: q == self.read_token)
            if p != self.read_token and not (r & (self.codefns - {self.read_token})):
                self.stream_fns.add(p)
        self.setup_masks()
        self.cut = set(nts) if nts is not None else self.find_nts()
        self.dyn_cut = set()
        self.calls_seen = {}
        self.lvar_types = ('lvar_collector::LvarCollector', 'lvar_collector::LvarTable')

    def selfdef(self, p):
        f = self.P.fns[p]
        if f.get('selfty') is None:
            return None
        return self.P.tdef(f['selfty'])

    def touches_code(self, f):
        """function reads the source text of the lexer (field `code`)"""
        if self.lexer_fields is None:
            return False
        idx = self.lexer_fields.index('code')
        P = self.P
        for b in f['blocks']:
            if b.get('c'):
                continue
            for s in b['s']:
                if s[0] == '=' and s[2][0] in ('use', 'ref', 'discr'):
                    pl = s[2][2] if s[2][0] == 'ref' else (s[2][1][1] if s[2][0] == 'use' and s[2][1][0] in ('cp', 'mv') else
                                                          (s[2][1] if s[2][0] == 'discr' else None))
                    if not pl:
                        continue
                    ty = f['locals'][pl[0]]
                    for e in pl[1:]:
                        if P.tdef(ty) == LEXER and e[0] == 'F' and e[1] == idx:
                            return True
                        if e[0] == 'D':
                            ty = P.inner(ty)
                        elif e[0] == 'F':
                            ty = P.field_ty(ty, None, e[1]) if P.ty(ty) and P.ty(ty)['k'] != 'adt' or P.is_struct(ty) else -1
                        elif e[0] == 'V':
                            ty = -1
                        if ty is None or ty < 0:
                            break
        return False

    @property
    def lexer_fields(self):
        if not hasattr(self, '_lf'):
            self._lf = self.fields_of(LEXER)
            self._pf = self.fields_of(PARSER)
        return self._lf

    def fields_of(self, d):
        for t in self.P.types:
            if t['k'] == 'adt' and t.get('def') == d:
                return [f['n'] for f in t['variants'][0]['fields']]
        raise AnalysisError('anchor: type %s not found' % d)

    def ty_of_def(self, d):
        for i, t in enumerate(self.P.types):
            if t['k'] == 'adt' and t.get('def') == d:
                return i
        return None

    # ------------------------------------------------------------ what tokens a lexer function builds
    def setup_masks(self):
        P = self.P
        self._built = {}
        self.all_mask = self.token_mask(self.read_token)

    def agg_consts(self, p):
        """(def, variant) of every enum value constructed in function p (incl. promoteds)"""
        if p in self._built:
            return self._built[p]
        out = set()
        f = self.P.fns[p]

        def body(b):
            for blk in b['blocks']:
                if blk.get('c'):
                    continue
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt':
                        out.add((s[2][1][1], s[2][1][2]))

                    def walk(x):
                        if isinstance(x, list):
                            if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict):
                                c = x[1]
                                if c.get('k') == 'lit':
                                    t = self.P.ty(c['t'])
                                    if t and t['k'] == 'adt' and t.get('adt') == 'enum':
                                        for i, v in enumerate(t['variants']):
                                            if v['discr'] == str(c.get('v')):
                                                out.add((t['def'], i))
                            else:
                                for y in x:
                                    walk(y)
                    walk(s)
        body(f)
        for pr in f['promoted']:
            body(pr)
        self._built[p] = out
        return out

    def token_mask(self, p):
        """over-approximation of the token kinds function p can build"""
        P = self.P
        consts = set()
        derived = lambda q: P.fns[q].get('derived')
        for q in P.reach([p]):
            if derived(q):
                continue
            consts |= self.agg_consts(q)
        mask = 0
        ats = P.atoms(self.tok_ty)
        anyres = any(c[0] == 'token::Reserved' for c in consts)
        for b, a in enumerate(ats):
            ty = self.tok_ty
            good = True
            for v in a:
                t = P.types[ty]
                if (t['def'], v) not in consts:
                    # reserved words come from enumeration of the type
                    if not (t['def'] == 'token::Reserved' and not anyres):
                        good = False
                        break
                fs = t['variants'][v]['fields']
                ty = fs[0]['t'] if len(fs) == 1 else -1
            if good:
                mask |= 1 << b
        return mask

    # ------------------------------------------------------------ non-terminals
    def find_nts(self):
        P = self.P
        names = NT_NAMES
        cut = set()
        inscc = set()
        nodes = [p for p in P.fns if '::{closure' not in p and self.selfdef(p) == PARSER]
        allnodes = [p for p in P.fns if not P.fns[p].get('derived')]
        for c in P.sccs(allnodes):
            inscc |= set(c)
        self.inscc = inscc
        for p in nodes:
            if names is not None and short(p) in names and '::{closure' not in p:
                cut.add(p)
        if names is None:
            return {p for p in nodes if p in inscc}
        # any recursion left must be cut as well
        while True:
            rest = P.sccs(allnodes, removed=cut)
            rest = [c for c in rest if any(self.selfdef(x) == PARSER for x in c if '::{closure' not in x)]
            if not rest:
                break
            for c in rest:
                c = sorted(x for x in c if '::{closure' not in x and self.selfdef(x) == PARSER)
                cut.add(c[0])
        return cut

    # ------------------------------------------------------------ stream positions
    def new_pos(self, st, prev):
        """prev: description value of what precedes"""
        st.nid += 1
        i = st.nid
        st.syms[i] = (POS, None, ('pos',), (('prev', prev),))
        return ('sym', i, ())

    def pos_get(self, st, p, key):
        for k, v in st.syms[p[1]][3]:
            if k == key:
                return v
        return None

    def pos_set(self, st, p, key, v):
        ty, m, o, ch = st.syms[p[1]]
        st.syms[p[1]] = (ty, m, o, tuple((k, x) for k, x in ch if k != key) + ((key, v),))

    def is_pos(self, st, v):
        return v[0] == 'sym' and v[1] in st.syms and st.syms[v[1]][0] == POS

    def keep_child(self, syms, c, ren):
        return super().keep_child(syms, c, ren)

    def canon(self, st):
        # positions keep prev/tok/next children unconditionally: handled through override of keep rule
        return super().canon(st)

    def desc_tok(self, st, v):
        """description of what precedes a position"""
        if v is None:
            return '?'
        if v[0] == 'adt' and v[1] == 'Annot':
            v = v[3][0]
        if v[0] == 'sym' and st.syms[v[1]][1] is not None and not v[2]:
            e = st.syms[v[1]]
            if e[0] == self.tok_ty:
                names = self.P.atom_names(self.tok_ty, e[1])
                if len(names) > 12:
                    return 'tok:*%d' % len(names)
                return 'tok:' + '|'.join(names)
        if v[0] == 'prim':
            return v[1]
        return '?'

    # lexer struct helpers: v is a location of the Lexer value
    def lexf(self, st, lexloc, field):
        i = self.lexer_fields.index(field)
        return self.read_loc(st, ('loc', lexloc[1], lexloc[2] + (('F', i),)))

    def lexset(self, st, lexloc, field, v):
        i = self.lexer_fields.index(field)
        self.write_loc(st, ('loc', lexloc[1], lexloc[2] + (('F', i),)), v)

    def cur_pos(self, st, lexloc):
        p = self.lexf(st, lexloc, 'pos')
        if not self.is_pos(st, p):
            p = self.new_pos(st, ('prim', 'start'))
            self.lexset(st, lexloc, 'pos', p)
        return p

    def lexer_loc(self, st, selfv):
        """location of the lexer for a &Parser / &Lexer value"""
        loc = self.deref_loc(st, selfv)
        if loc[0] != 'loc':
            return None
        v = self.read_loc(st, loc)
        if v[0] == 'adt' and v[1] == LEXER:
            return loc
        if v[0] == 'adt' and v[1] == PARSER:
            i = self._pf.index('lexer')
            return ('loc', loc[1], loc[2] + (('F', i),))
        return None

    def parser_loc(self, st, selfv):
        loc = self.deref_loc(st, selfv)
        if loc[0] != 'loc':
            return None
        v = self.read_loc(st, loc)
        if v[0] == 'adt' and v[1] == PARSER:
            return loc
        return None

    def eof_bit(self):
        if not hasattr(self, '_eof'):
            n = self.P.atom_names(self.tok_ty, self.all_mask)
            self._eof = 1 << n.index('Eof')
        return self._eof

    def skip_bits(self):
        if not hasattr(self, '_skip'):
            m = 0
            for b, a in enumerate(self.P.atoms(self.tok_ty)):
                if self.P.atom_name(self.tok_ty, a) in ('LineTerm', 'Punct.Semi'):
                    m |= 1 << b
            self._skip = m
            self._eof = 1 << [self.P.atom_name(self.tok_ty, a) for a in self.P.atoms(self.tok_ty)].index('Eof')
        return self._skip

    def do_read_token(self, st, argv, t):
        """the lexer's tokenizer: next token of the abstract stream"""
        lexloc = self.deref_loc(st, argv[0])
        p = self.cur_pos(st, lexloc)
        tok = self.pos_get(st, p, 'tok')
        out = []
        self.after_error(st, p)
        if tok is None:
            prev = self.pos_get(st, p, 'prev')
            mask = self.all_mask
            afterskip = False
            if prev is not None and prev[0] == 'sym' and st.syms[prev[1]][0] == self.tok_ty:
                pm = st.syms[prev[1]][1]
                if pm & ~self.skip_bits() == 0:
                    mask &= ~self.skip_bits()      # runs of separators are one separator
                if pm & ~self.eof_bit() == 0:
                    mask = self.eof_bit()          # nothing follows the end of the input
            s2 = st.copy()
            # lexical error
            self.pos_set(s2, p, 'tok', ('prim', 'ERR'))
            s2.ev.append(('lexerr',))
            self.lexset(s2, lexloc, 'pos', self.new_pos(s2, ('prim', 'error')))
            out.append((s2, err(self.lexerr(s2, ('lexerr',)))))
            tok = self.new_sym(st, self.tok_ty, ('tok',), mask)
            self.pos_set(st, p, 'tok', tok)
            nx = self.new_pos(st, tok)
            self.pos_set(st, p, 'next', nx)
            self.lexset(st, lexloc, 'pos', nx)
            self.lexset(st, lexloc, 'token_start_pos', TOP)
            out.append((st, ok(('adt', 'Annot', 0, (tok, TOP)))))
            return out
        if tok == ('prim', 'ERR'):
            self.lexset(st, lexloc, 'pos', self.new_pos(st, ('prim', 'error')))
            return [(st, err(self.lexerr(st, ('lexerr',))))]
        nx = self.pos_get(st, p, 'next')
        self.lexset(st, lexloc, 'pos', nx)
        self.lexset(st, lexloc, 'token_start_pos', TOP)
        return [(st, ok(('adt', 'Annot', 0, (tok, TOP))))]

    def after_error(self, st, p):
        """reading goes on where an error was found"""
        if self.is_pos(st, p) and self.pos_get(st, p, 'prev') == ('prim', 'error'):
            st.ev.append(('stale', 'after an error'))

    def lexerr(self, st, origin):
        return ('adt', 'parser::lexer::LexerErr', 0, (TOP, TOP))

    # ------------------------------------------------------------ macro step over stream functions
    def macro(self, st, fn, argv, t):
        lexloc = self.deref_loc(st, argv[0])
        if lexloc[0] != 'loc':
            return [(st, self.fresh(st, t[5], ('lex', short(fn['path']))))]
        p0 = self.lexf(st, lexloc, 'pos')
        depth = len(st.frames)
        self.push_call(st, fn, argv, ('place', t[3]), t[4])
        work = [st]
        outs = []
        n = 0
        self.nested = getattr(self, 'nested', 0) + 1
        while work:
            s = work.pop()
            while True:
                n += 1
                if n > 20000:
                    raise AnalysisError('lexer function %s does not converge' % fn['path'])
                f = s.frames[-1]
                self.visited_blocks.add((f.fn['path'], f.bb))
                try:
                    nxt = self.step_block(s)
                except Infeasible:
                    break
                done = False
                keep = None
                for kind, x in nxt:
                    if kind != 'go':
                        outs.append((kind, x))
                        continue
                    if len(x.frames) == depth:
                        outs.append(('go', x))
                        continue
                    if keep is None:
                        keep = x
                    else:
                        work.append(x)
                if keep is None:
                    break
                s = keep
        self.nested -= 1
        res = []
        for kind, s in outs:
            if kind != 'go':
                res.append((kind, s))
                continue
            if not self.nested:
                self.after_stream(s, lexloc, p0, short(fn['path']))
            res.append(('frame', s))
        return res

    def after_stream(self, st, lexloc, p0, name):
        """emit the net effect of a stream operation"""
        p1 = self.lexf(st, lexloc, 'pos')
        if p1 == p0:
            return
        if not self.is_pos(st, p0) or not self.is_pos(st, p1):
            self.commit(st)
            st.ev.append(('jump', name))
            return
        if self.pos_get(st, p1, 'prev') == ('prim', 'error'):
            self.commit(st)
            return
        toks = []
        p = p0
        n = 0
        while p is not None and p != p1 and n < 6:
            tk = self.pos_get(st, p, 'tok')
            toks.append(tk)
            p = self.pos_get(st, p, 'next')
            n += 1
        if p == p1:
            pend = st.heap.get('$pend')
            if pend is not None and all(not st.syms[x[1]][1] & ~self.skip_bits() for x in pend[1][1:]):
                st.heap['$pend'] = ('tup', pend[1] + tuple(toks))
                return
            self.commit(st)
            st.heap['$pend'] = ('tup', (p0,) + tuple(toks))
            return
        pend = st.heap.get('$pend')
        if pend is not None and pend[1][0] == p1:
            st.heap.pop('$pend')      # only looked at
            return
        self.commit(st)
        st.ev.append(('back', self.desc_tok(st, self.pos_get(st, p1, 'prev'))))

    def commit(self, st):
        tk = st.heap.pop('$pend', None)
        if tk is not None:
            for x in tk[1][1:]:
                st.ev.append(('tok', st.syms[x[1]][1]))

    # ------------------------------------------------------------ stale buffers
    def discr_of(self, st, v, loc, ty):
        if loc[0] == 'loc' and loc[2] and v[0] in ('adt', 'prim') and v[1] in (OPT, 'maybe'):
            par = self.read_loc(st, ('loc', loc[1], loc[2][:-1])) if loc[2][-1][0] == 'F' else TOP
            if par[0] == 'adt' and par[1] == LEXER:
                fld = self.lexer_fields[loc[2][-1][1]]
                if fld in ('buf', 'buf_skip_lt'):
                    lexloc = ('loc', loc[1], loc[2][:-1])
                    if not self.coherent(st, lexloc, fld, v):
                        st.ev.append(('stale', fld))
                    if v[0] == 'prim':
                        self.write_loc(st, loc, NONE)
                        return ('c', 0)
        return super().discr_of(st, v, loc, ty)

    def coherent(self, st, lexloc, fld, v):
        p = self.lexf(st, lexloc, 'pos')
        if v[0] == 'prim':
            return v[2] == p
        if v[0] == 'adt' and v[2] == 0:
            return True
        if v[0] != 'adt':
            return True
        tok = v[3][0]
        tok = tok[3][0] if tok[0] == 'adt' and tok[1] == 'Annot' else tok
        if not self.is_pos(st, p):
            return False
        n = 0
        while p is not None and n < 4:
            tk = self.pos_get(st, p, 'tok')
            if tk == tok:
                return True
            if fld == 'buf_skip_lt' and tk is not None and tk[0] == 'sym' and \
                    st.syms[tk[1]][1] & ~self.skip_bits() == 0:
                p = self.pos_get(st, p, 'next')
                n += 1
                continue
            return False
        return False

    # ------------------------------------------------------------ calls
    def call(self, st, name, info, argv, t):
        P = self.P
        fn = P.fns.get(name)
        if fn is None:
            r = self.external(st, name, info, argv, t)
            if r is not None:
                return r
            return self.unknown(st, name, info, argv, t)
        if fn.get('derived'):
            r = self.external(st, name, info, argv, t)
            if r is not None:
                return r
        if name == self.read_token:
            return self.do_read_token(st, argv, t)
        if name in self.lexfns:
            if name in self.stream_fns:
                f0 = self.selfarg_is_ref(fn)
                if f0:
                    return self.macro(st, fn, argv, t)
                return [self.push_call(st, fn, argv, ('place', t[3]), t[4])]
            if not self.selfarg_is_ref(fn) or self.P.tdef(t[5]) == LEXER:
                return [self.push_call(st, fn, argv, ('place', t[3]), t[4])]
            return self.scan(st, name, fn, argv, t)
        sd = self.selfdef(name) if '::{closure' not in name else None
        if sd in self.lvar_types or short_mod(name).startswith('lvar_collector'):
            return self.lvar_call(st, name, fn, argv, t)
        if name in self.cut or any(f.fn['path'] == name for f in st.frames):
            if name not in self.cut:
                self.dyn_cut.add(name)
            return self.nt_call(st, name, fn, argv, t)
        r = self.special(st, name, fn, argv, t)
        if r is not None:
            return r
        return [self.push_call(st, fn, argv, ('place', t[3]), t[4])]

    def special(self, st, name, fn, argv, t):
        ty = self.P.ty(t[5])
        if ty and (ty.get('def') == 'std::string::String' or
                   ty['k'] == 'ref' and (self.P.ty(ty['inner']) or {}).get('k') == 'str') and \
                not any((self.P.ty(fn['locals'][i + 1]) or {}).get('mut') for i in range(fn['argc'])):
            return [(st, self.fresh(st, t[5], ('str', short(name))))]     # text is opaque
        return None

    def selfarg_is_ref(self, fn):
        if fn['argc'] < 1:
            return False
        t = self.P.ty(fn['locals'][1])
        return bool(t) and t['k'] == 'ref' and self.P.tdef(t['inner']) in (LEXER,)

    def unknown(self, st, name, info, argv, t):
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        if short(name) == 'find_lvar':
            s2 = st.copy()
            st.ev.append(('extern', 'None'))
            s2.ev.append(('extern', 'Some'))
            return [(st, NONE), (s2, self.some_fresh(s2, t[5], ('extern',)))]
        for a in argv:
            self.havoc_ref(st, a, name)
        return [(st, self.fresh(st, t[5], ('ext', short(name))))]

    def lvar_call(self, st, name, fn, argv, t):
        """operations on the table of local variables are events"""
        n = short(name)
        tgt = None
        if argv and argv[0][0] in ('ref', 'rv'):
            loc = self.deref_loc(st, argv[0])
            tgt = self.scope_pos(st, loc)
        args = tuple(self.desc(st, a) for a in argv[1:])
        ty = self.P.ty(t[5])
        if ty and ty.get('def') == OPT:
            # found / already present, or not
            s2 = st.copy()
            st.ev.append(('lvar', n, tgt, args, 'None'))
            s2.ev.append(('lvar', n, tgt, args, 'Some'))
            return [(st, NONE), (s2, self.some_fresh(s2, t[5], ('lvar', n)))]
        st.ev.append(('lvar', n, tgt, args, ''))
        return [(st, self.fresh(st, t[5], ('lvar', n)))]

    def default(self, st, ty):
        if (self.P.tdef(ty) or '').endswith('LvarCollector'):
            return self.new_sym(st, ty, ('lvar', 'default'))
        return super().default(st, ty)

    def cloned(self, st, v, trait):
        if v[0] == 'sym' and st.syms[v[1]][2] in (('scopetable',), ('tablecopy',)):
            st.ev.append(('lvar', 'clone', None, (), ''))
            return self.new_sym(st, st.syms[v[1]][0], ('tablecopy',))
        return super().cloned(st, v, trait)

    def vec_push(self, st, v, x):
        if v[0] == 'stk' and x[0] == 'adt':
            # the table of a scope of the program
            for y in x[3]:
                if y[0] == 'sym' and (self.P.tdef(st.syms[y[1]][0]) or '').endswith('LvarCollector'):
                    ty, m, o, ch = st.syms[y[1]]
                    st.syms[y[1]] = (ty, m, ('scopetable',), ch)
        return super().vec_push(st, v, x)

    def scope_pos(self, st, loc):
        if loc[0] == 'loc':
            for e in loc[2]:
                if e[0] == 'E':
                    return e[1]
            v = self.read_loc(st, loc)
            if v[0] == 'sym':
                return str(st.syms[v[1]][2])[:60]
            return 'local'
        v = loc[1]
        if v[0] == 'sym':
            return self.origin_str(st.syms[v[1]][2])
        return 'outer'

    SCAN_MOVES = None

    def scan(self, st, name, fn, argv, t):
        """a lexer function that works on characters: summarised"""
        lexloc = self.deref_loc(st, argv[0])
        mut = self.P.ty(fn['locals'][1]).get('mut')
        cargs = tuple(self.desc(st, a) for a in argv[1:])
        if lexloc[0] != 'loc':
            return [(st, self.fresh(st, t[5], ('scan', short(name))))]
        if not mut:
            return self.pure_scan(st, name, lexloc, argv, t)
        flush = self.scan_flushes(name)
        out = []
        res = self.scan_results(st, name, t[5])
        for i, (moved, mkval) in enumerate(res):
            s = st if i == len(res) - 1 else st.copy()
            if moved:
                self.commit(s)
                s.ev.append(('scan', short(name), cargs))
                if flush is None and (self.filled(s, lexloc)):
                    s.ev.append(('unflushed', short(name)))
                self.after_error(s, self.lexf(s, lexloc, 'pos'))
                fails = i == 0 and (self.P.ty(t[5]) or {}).get('def') == RES
                p = self.new_pos(s, ('prim', 'error' if fails else 'scan:' + short(name)))
                self.lexset(s, lexloc, 'pos', p)
                if flush:
                    self.lexset(s, lexloc, 'buf', NONE)
                    self.lexset(s, lexloc, 'buf_skip_lt', NONE)
            v = mkval(s)
            out.append((s, v))
        for a in argv[1:]:
            if a[0] == 'ref':
                for s, _ in out:
                    self.havoc_ref(s, a, name)
        return out

    def filled(self, st, lexloc):
        return any(self.lexf(st, lexloc, f)[0] != 'adt' or self.lexf(st, lexloc, f)[2] != 0
                   for f in ('buf', 'buf_skip_lt'))

    def pure_scan(self, st, name, lexloc, argv, t):
        ty = self.P.ty(t[5])
        if ty and ty['k'] == 'bool':
            a = st.copy()
            n = short(name)
            if n == 'trailing_lparen':
                # the next character is '(' exactly when the next token is an unseparated '('
                p = self.cur_pos(a, lexloc)
                if self.pos_get(a, p, 'tok') is None:
                    bit = [b for b, x in enumerate(self.P.atoms(self.tok_ty))
                           if self.P.atom_name(self.tok_ty, x) == 'Punct.LParen']
                    tok = self.new_sym(a, self.tok_ty, ('tok',), 1 << bit[0])
                    self.pos_set(a, p, 'tok', tok)
                    nx = self.new_pos(a, tok)
                    self.pos_set(a, p, 'next', nx)
            a.ev.append(('look', n, 1))
            st.ev.append(('look', n, 0))
            return [(a, ('c', 1)), (st, ('c', 0))]
        return [(st, self.fresh(st, t[5], ('scan', short(name))))]

    def scan_flushes(self, name):
        """does the function end with empty look-ahead buffers (it calls flush / get_token)?"""
        fl = [p for p in self.lexfns if short(p) in ('flush', 'get_token')]
        c = self.P.callees[name]
        return True if any(p in c for p in fl) else None

    def scan_results(self, st, name, ty):
        """-> list of (moved?, constructor)"""
        P = self.P
        t = P.ty(ty)
        n = short(name)

        def tokval(s, ty2, org):
            v = self.fresh(s, ty2, org)

            def fix(x):
                if x[0] == 'sym' and s.syms[x[1]][0] == self.tok_ty:
                    e = s.syms[x[1]]
                    s.syms[x[1]] = (e[0], e[1] & self.token_mask(name), e[2], e[3])
                elif x[0] in ('adt', 'tup'):
                    for y in x[-1]:
                        fix(y)
            fix(v)
            return v
        org = ('scan', n)
        if t and t.get('def') == RES:
            okty = t['variants'][0]['fields'][0]['t']
            to = P.ty(okty)
            res = [(True, lambda s: err(self.lexerr(s, org)))]
            if to and to.get('def') == OPT:
                res.append((False, lambda s: ok(NONE)))
                pty = to['variants'][1]['fields'][0]['t']
                res.append((True, lambda s: ok(some(tokval(s, pty, org)))))
            elif to and to['k'] == 'bool':
                res.append((False, lambda s: ok(('c', 0))))
                res.append((True, lambda s: ok(('c', 1))))
            else:
                res.append((True, lambda s: ok(tokval(s, okty, org))))
            return res
        if t and t.get('def') == OPT:
            return [(False, lambda s: NONE),
                    (True, lambda s: some(tokval(s, t['variants'][1]['fields'][0]['t'], org)))]
        if t and t['k'] == 'bool':
            return [(False, lambda s: ('c', 0)), (True, lambda s: ('c', 1))]
        if t and t['k'] == 'tuple' and not t['fields']:
            return [(True, lambda s: UNIT)]
        return [(True, lambda s: tokval(s, ty, org))]

    def refine(self, st, i, bits):
        _, mask, org, _ = st.syms[i]
        Engine.refine(self, st, i, bits)
        if org and org[0] == 'flag' and mask == 3 and st.syms[i][1] in (1, 2):
            st.ev.append(('look', 'mode:' + org[1], st.syms[i][1] >> 1))
        if st.syms[i][1] != mask and self.P.tdef(st.syms[i][0]) == 'parser::ScopeKind':
            st.ev.append(('scopekind', st.syms[i][1]))

    # ------------------------------------------------------------ non-terminal calls
    def is_opt_char(self, ty):
        t = self.P.ty(ty)
        return bool(t and t['k'] == 'adt' and t.get('def') == 'std::option::Option' and
                    any(self.P.ty(f['t'])['k'] == 'char' for v in t['variants'] for f in v['fields']))

    def cargs(self, st, argv):
        out = []
        for a in argv[1:]:
            out.append(self.carg(st, a))
        return tuple(out)

    # the kind of a node built by the caller is part of the context of these functions
    NODE_KINDS = {'parse_mul_assign': ('Splat',)}

    def do_eq(self, st, a, b, neg):
        out = super().do_eq(st, a, b, neg)
        x, y = self.deref(st, a), self.deref(st, b)
        if y[0] == 's':
            x, y = y, x
        if x[0] == 's' and y[0] == 'sym' and self.desc(st, y).startswith('tok.'):
            for s, v in out:
                if v == ('c', 0 if neg else 1):
                    self.commit(s)
                    s.ev.append(('streq', x[1]))
        return out

    def carg(self, st, a):
        if a[0] == 'rv' or a[0] == 'ref':
            return '_'
        if a[0] == 'c':
            return str(a[1])
        if a[0] == 'adt' and a[1] == OPT:
            return 'None' if a[2] == 0 else self.carg(st, a[3][0])
        if a[0] == 'adt' and not a[3]:
            t = self.ty_of_def(a[1])
            if t is not None and self.P.is_enum(t):
                return self.P.types[t]['variants'][a[2]]['name']
        return '_'

    def node_carg(self, st, a, kinds):
        if a[0] == 'adt' and a[1] == 'Annot' and a[3][0][0] in ('adt', 'sym'):
            k = a[3][0]
            if k[0] == 'adt':
                n = self.P.types[self.node_ty]['variants'][k[2]]['name']
            else:
                ns = self.P.atom_names(self.node_ty, st.syms[k[1]][1]) if st.syms[k[1]][1] is not None else ()
                n = ns[0] if len(ns) == 1 else None
            return n if n in kinds else None
        return None

    def flags_desc(self, st, ploc):
        v = self.read_loc(st, ploc)
        out = []
        for n, x in zip(self._pf, v[3]):
            if n in self.flag_fields():
                out.append((n, self.flag_val(st, x)))
        return tuple(out)

    def flag_val(self, st, x):
        if x[0] == 'c':
            return x[1]
        if x[0] == 'sym':
            e = st.syms[x[1]]
            if e[1] == 1:
                return '=0'
            if e[1] == 2:
                return '=1'
            return 'same' if e[2][0] == 'flag' else '?'
        return '?'

    def flag_fields(self):
        if not hasattr(self, '_ff'):
            ty = self.ty_of_def(PARSER)
            self._ff = [f['n'] for f in self.P.types[ty]['variants'][0]['fields']
                        if self.P.ty(f['t']) and self.P.ty(f['t'])['k'] == 'bool']
        return self._ff

    def stack_fields(self):
        if not hasattr(self, '_sf'):
            ty = self.ty_of_def(PARSER)
            self._sf = [f['n'] for f in self.P.types[ty]['variants'][0]['fields']
                        if self.P.tdef(f['t']) == 'std::vec::Vec']
        return self._sf

    def stacks_desc(self, st, ploc):
        v = self.read_loc(st, ploc)
        out = []
        for n, x in zip(self._pf, v[3]):
            if n in self.stack_fields():
                if x[0] == 'stk':
                    out.append((n, tuple(self.elem_desc(st, e) for e in x[1])))
                elif x[0] == 'vec':
                    out.append((n, ('=',) + tuple(self.elem_desc(st, e) for e in x[1])))
                else:
                    out.append((n, ('?',)))
        return tuple(out)

    def elem_desc(self, st, e):
        if e[0] == 'adt':
            t = self.ty_of_def(e[1])
            if t is not None and self.P.is_enum(t):
                return self.P.types[t]['variants'][e[2]]['name']
            return '/'.join(x for x in (self.elem_desc(st, f) for f in e[3]) if x)
        return ''

    def next_masks(self, st, p):
        """kinds of the next token, and of the one after it if the next token is a separator"""
        nt = self.pos_get(st, p, 'tok') if self.is_pos(st, p) else None
        m1 = st.syms[nt[1]][1] if nt is not None and nt[0] == 'sym' else (0 if nt is not None else -1)
        m2 = -1
        if m1 > 0 and m1 & ~self.skip_bits() == 0:
            q = self.pos_get(st, p, 'next')
            if q is not None:
                n2 = self.pos_get(st, q, 'tok')
                m2 = st.syms[n2[1]][1] if n2 is not None and n2[0] == 'sym' else (0 if n2 is not None else -1)
        return m1, m2

    def live_syms(self, st, target):
        out = set()
        for d, f in enumerate(st.frames):
            self.P.prepare(f.fn)
            lv = (f.fn['live'][target] if target >= 0 else ()) if d == len(st.frames) - 1 else self.live_after_call(st, d)
            for k, v in f.locals.items():
                if k in lv:
                    self.value_syms(v, out)
        return out

    def split_pending(self, st, t):
        """one state per kind of a consumed token on which the function still decides after the call"""
        pend = st.heap.get('$pend')
        if pend is None:
            return [st]
        live = None
        for x in pend[1][1:]:
            m = st.syms[x[1]][1]
            if m is None or not 2 <= bin(m).count('1') <= 8:
                continue
            if live is None:
                live = self.live_syms(st, t[4])
            if x[1] in live:
                out = []
                for i in range(m.bit_length()):
                    if m >> i & 1:
                        s = st.copy()
                        self.refine(s, x[1], 1 << i)
                        out.extend(self.split_pending(s, t))
                return out
        return [st]

    def nt_call(self, st, name, fn, argv, t):
        ss = self.split_pending(st, t)
        if len(ss) > 1:
            out = []
            for s in ss:
                # the arguments may depend on the token
                out.extend(self.nt_call1(s, name, fn, argv, t))
            return out
        return self.nt_call1(st, name, fn, argv, t)

    def nt_call1(self, st, name, fn, argv, t):
        self.commit(st)
        ploc = self.parser_loc(st, argv[0]) if argv else None
        n = short(name)
        ca = self.cargs(st, argv)
        # delimiters of strings are no matter of the grammar
        ca = tuple('_' if self.is_opt_char(fn['locals'][i + 2]) else c for i, c in enumerate(ca))
        if n in self.NODE_KINDS:
            ca = tuple(self.node_carg(st, a, self.NODE_KINDS[n]) or c for a, c in zip(argv[1:], ca))
        prev = '?'
        flags = ()
        stacks = ()
        lexloc = None
        if ploc is not None:
            lexloc = self.lexer_loc(st, argv[0])
            p = self.cur_pos(st, lexloc)
            self.after_error(st, p)
            prev = self.desc_tok(st, self.pos_get(st, p, 'prev'))
            nexttok = self.pos_get(st, p, 'tok')
            nmask, nmask2 = self.next_masks(st, p)
            flags = self.flags_desc(st, ploc)
            stacks = self.stacks_desc(st, ploc)
            fresh_parser = not (ploc[1] == ('H', 'self'))
        else:
            fresh_parser = False
            nexttok = None
            nmask = nmask2 = -1
        self.calls_seen.setdefault((name, ca), set()).add((st.frames[-1].fn['path']))
        argd = tuple(self.desc(st, a) for a in argv[1:])
        nx = self.desc_tok(st, nexttok) if nexttok is not None and nexttok[0] == 'sym' else '?'
        clean = lexloc is None or not self.filled(st, lexloc)
        st.ev.append(('nt', n, ca, prev, flags, stacks, argd, fresh_parser, nx, nmask, nmask2, clean))
        org = ('nt', n, ca, prev)
        rt = self.P.ty(t[5])
        # effect on by-reference arguments
        for a in argv[1:]:
            if a[0] == 'ref':
                loc = self.deref_loc(st, a)
                v = self.read_loc(st, loc)
                if v[0] in ('vec', 'vecm'):
                    o = self.vec_origins(st, v)
                    o.add(org)
                    self.write_loc(st, loc, ('vecm', min(self.vec_len(v)[0] + 1, self.VECCAP + 1), self.vorig(o)))
        outs = []
        if rt and rt.get('def') == RES:
            s2 = st.copy()
            # error result
            s2.ev.append(('nt-err', n))
            if lexloc is not None:
                self.lexset(s2, lexloc, 'pos', self.new_pos(s2, ('prim', 'err:' + n)))
                self.lexset(s2, lexloc, 'buf', NONE)
                self.lexset(s2, lexloc, 'buf_skip_lt', NONE)
                self.poison(s2, ploc)
            outs.append((s2, err(self.lexerr(s2, org))))
            if lexloc is not None:
                self.advance_nt(st, lexloc, n, ca)
                if fresh_parser:
                    st.heap['$fresh'] = self.lexf(st, lexloc, 'pos')
            outs.append((st, ok(self.fresh(st, rt['variants'][0]['fields'][0]['t'], org))))
            return outs
        if lexloc is not None:
            self.advance_nt(st, lexloc, n, ca)
        return [(st, self.fresh(st, t[5], org))]

    def poison(self, st, ploc):
        st.heap['$poison'] = ('c', 1)

    def advance_nt(self, st, lexloc, n, ca):
        p = self.new_pos(st, ('prim', 'nt:' + n + ('(' + ','.join(ca) + ')' if any(c != '_' for c in ca) else '')))
        self.lexset(st, lexloc, 'pos', p)
        if n in self.CLEAN_EXIT:
            self.lexset(st, lexloc, 'buf', NONE)
            self.lexset(st, lexloc, 'buf_skip_lt', NONE)
            return
        self.lexset(st, lexloc, 'buf', ('prim', 'maybe', p))
        self.lexset(st, lexloc, 'buf_skip_lt', ('prim', 'maybe', p))

    # ------------------------------------------------------------ descriptions
    shallow = False

    def origin_str(self, o):
        if not isinstance(o, tuple):
            return str(o)
        if not o:
            return ''
        if o[0] == 'nt':
            a = [x for x in o[2]]
            return '%s%s<%s>' % (o[1], '(%s)' % ','.join(a) if any(x != '_' for x in a) else '', o[3])
        if o[0] == 'built':
            return '#' + (o[1] if self.shallow or len(o) < 4 else o[3])
        if o[0] == 'sub':
            return '%s.%s.%s' % (self.origin_str(o[1]), o[2], o[3])
        return ':'.join(self.origin_str(x) for x in o)

    def desc(self, st, v, d=0):
        t = v[0]
        if d > 5:
            return '..'
        if t == 'c':
            return str(v[1])
        if t == 's':
            return repr(v[1])
        if t in ('ref', 'rv'):
            return self.desc(st, self.deref1(st, v), d + 1)
        if t == 'sym':
            e = st.syms[v[1]]
            s = self.origin_str(e[2])
            if e[1] is not None and (e[0] == self.tok_ty or v[2] or e[2][0] in ('tok',)):
                if v[2] or e[0] == self.tok_ty:
                    names = self.P.atom_names(e[0], e[1])
                    s += '{%s}' % ('|'.join(names) if len(names) <= 8 else '*%d' % len(names))
            elif e[1] is not None and e[1] != self.P.full(e[0]):
                names = self.P.atom_names(e[0], e[1])
                if len(names) <= (16 if e[2][0] == 'argnode' else 4) and e[2][0] != 'built':
                    s += '{%s}' % '|'.join(names)
                elif e[2][0] != 'built':
                    no = self.P.atom_names(e[0], self.P.full(e[0]) & ~e[1])
                    if len(no) <= 2:
                        s += '{!%s}' % '|'.join(no)
            return s
        if t == 'adt':
            ty = self.ty_of_def(v[1])
            nm = v[1].split('::')[-1]
            if v[1] == 'Annot':
                return self.desc(st, v[3][0], d)
            if ty is not None and self.P.is_enum(ty):
                nm = self.P.types[ty]['variants'][v[2]]['name']
            if not v[3]:
                return nm
            return '%s(%s)' % (nm, ','.join(self.desc(st, x, d + 1) for x in v[3]))
        if t == 'tup':
            return '(%s)' % ','.join(self.desc(st, x, d + 1) for x in v[1])
        if t == 'box':
            return self.desc(st, v[1], d)
        if t == 'vec':
            return '[%s]' % ','.join(self.desc(st, x, d + 1) for x in v[1])
        if t == 'vecm':
            return '[%d+ %s]' % (v[1], ','.join(sorted(self.origin_str(o) for o in v[2])))
        if t == 'mv':
            return '-'
        if t == 'not':
            return '!' + self.desc(st, v[1], d + 1)
        return '?'

    def vorig(self, o):
        # vectors remember which parsing functions their contents came from
        out = set()
        flat = []
        todo = list(o)
        while todo:
            x = self.simple_origin(todo.pop())
            if isinstance(x, tuple) and len(x) > 1 and x[0] == 'elem':
                todo += x[1]          # an element of a list is content of what the list was made from
            else:
                flat.append(x)
        for x in flat:
            if x == ('reordered',):
                out.add(x)
            if self.is_content(x):
                if x[0] == 'nt':
                    # and which punctuation was in front of them
                    p = x[3] if isinstance(x[3], str) and x[3].startswith('tok:Punct.') and '|' not in x[3] else ''
                    x = x[:3] + ('' if p in ('tok:Punct.Comma', 'tok:Punct.Semi') else p,)
                out.add(x[:3] if x[0] == 'built' else x)
        return frozenset(out)

    def simple_origin(self, o):
        if isinstance(o, tuple) and o and o[0] == 'sub':
            return self.simple_origin(o[1])
        return o

    # ------------------------------------------------------------ builds
    NODE_DEFS = ('node::NodeKind',)

    def has_content(self, st, v):
        out = set()
        self.origins_of(st, v, out)
        return any(self.is_content(o) for o in out)

    def is_content(self, o):
        while isinstance(o, tuple) and o and o[0] == 'sub':
            o = o[1]
        if not isinstance(o, tuple) or not o:
            return False
        if o[0] == 'elem':
            return len(o) > 1 and any(self.is_content(x) for x in o[1])
        return o[0] == 'nt' or (o[0] == 'built' and o[2]) or o[0] == 'argnode'

    def on_build(self, st, v, kk, s):
        d = v[1]
        fp = st.frames[-1].fn.get('path', '')
        if d == 'parser::lexer::LexerErr' and fp.startswith('parser::') and not fp.startswith('parser::lexer'):
            kind = v[3][0] if v[3] else TOP
            kind = self.desc(st, kind)
            p = self.lexf(st, ('loc', ('H', 'self'), (('F', self._pf.index('lexer')),)), 'pos') if self._pf else TOP
            prev = self.pos_get(st, p, 'prev') if self.is_pos(st, p) else None
            pm = st.syms[prev[1]][1] if prev is not None and prev[0] == 'sym' and st.syms[prev[1]][1] is not None else -1
            st.ev.append(('made', short(st.frames[-1].fn['path']), kind, pm) + self.next_masks(st, p))
        if d == 'node::NodeKind' or d.startswith('node::') or d == 'parser::RescueEntry':
            if d not in self.NODE_DEFS:
                self.commit(st)
            st.ev.append(('build', d.split('::')[-1] + '.' + kk[3], tuple(self.desc(st, x) for x in v[3])))
            st.frames[-1].locals['$'] = UNIT
            st.frames[-1].locals.pop('$', None)

    def rvalue(self, st, r, s):
        v = super().rvalue(st, r, s)
        if r[0] == 'agg' and v[0] == 'adt' and (v[1].startswith('node::') or v[1] == 'parser::RescueEntry') and v[3]:
            v = ('adt', v[1], v[2], tuple(self.flatten(st, x) for x in v[3]))
        return v

    def flatten(self, st, v, d=0):
        """nested syntax-tree nodes become opaque values that only remember their kind"""
        t = v[0]
        if t == 'box':
            return ('box', self.flatten(st, v[1], d))
        if t == 'adt' and v[1] == 'Annot' and v[3][0][0] == 'adt' and v[3][0][1] == 'node::NodeKind':
            k = v[3][0]
            con = self.has_content(st, k)
            nm = self.P.types[self.node_ty]['variants'][k[2]]['name']
            self.shallow = True
            shape = '%s(%s)' % (nm, ', '.join(self.desc(st, x) for x in k[3])) if k[3] else nm
            self.shallow = False
            sy = self.new_sym(st, self.node_ty, ('built', nm, con, shape))
            bit = self.P.part(self.node_ty, ()).get(k[2])
            self.refine(st, sy[1], bit)
            return ('adt', 'Annot', 0, (sy, TOP))
        if t == 'adt' and v[1] in (OPT,) and v[3]:
            return ('adt', v[1], v[2], tuple(self.flatten(st, x, d) for x in v[3]))
        return v

    # ------------------------------------------------------------ drops
    def on_drop(self, st, t):
        v = self.read_place(st, t[1])
        self.write_place(st, t[1], MV)
        if v[0] in ('mv', 'top', 'c'):
            return
        self.drop_value(st, v)

    def drop_value(self, st, v):
        out = []
        self.content_syms(st, v, out)
        if not out:
            return
        alive = set()
        for f in st.frames:
            for x in f.locals.values():
                self.value_syms(x, alive)
        for x in st.heap.values():
            self.value_syms(x, alive)
        # a payload that survives keeps its parent
        parents = {}
        for i, e in st.syms.items():
            for k, c in e[3]:
                ss = set()
                self.value_syms(c, ss)
                for j in ss:
                    parents.setdefault(j, set()).add(i)
        al2 = set()
        w = list(alive)
        while w:
            i = w.pop()
            if i in al2:
                continue
            al2.add(i)
            w.extend(parents.get(i, ()))
        for kind, x in out:
            if kind == 'sym':
                if x in al2:
                    continue
                # a payload of it survives?
                st.ev.append(('drop', self.desc(st, ('sym', x, ()))))
            else:
                st.ev.append(('drop', 'vec:' + ','.join(sorted(self.origin_str(o) for o in x))))

    def content_syms(self, st, v, out):
        t = v[0]
        if t == 'sym':
            e = st.syms[v[1]]
            if self.is_content(e[2]) and e[0] != POS:
                if e[0] in (self.node_ty,) or (self.P.ty(e[0]) or {}).get('def', '').startswith('node::') or \
                        (self.P.ty(e[0]) or {}).get('def') in (OPT, 'std::vec::Vec'):
                    # an absent optional carries nothing
                    if (self.P.ty(e[0]) or {}).get('def') == OPT and e[1] == 1:
                        return
                    out.append(('sym', v[1]))
        elif t in ('adt', 'tup'):
            if t == 'adt' and v[1] == 'token::TokenKind':
                return
            for x in v[-1]:
                self.content_syms(st, x, out)
        elif t == 'box':
            self.content_syms(st, v[1], out)
        elif t == 'vec':
            for x in v[1]:
                self.content_syms(st, x, out)
        elif t == 'vecm':
            o = [x for x in v[2] if self.is_content(x)]
            if o:
                out.append(('vec', o))

    # ------------------------------------------------------------ panics
    def on_unreachable(self, st, t):
        return []

    def external(self, st, name, info, argv, t):
        n = norm(name)
        if t[4] < 0 and (n.startswith('core::panicking') or n.startswith('std::rt') or 'panic' in n):
            st.ev.append(('panic?' if st.gs else 'panic', 'panic', st.frames[-1].fn['path']))
            return [('dead', st)]
        return super().external(st, name, info, argv, t)

    def loc_name(self, st, loc):
        if loc[0] == 'loc' and loc[2] and loc[2][-1][0] == 'F':
            par = self.read_loc(st, ('loc', loc[1], loc[2][:-1]))
            if par[0] == 'adt' and par[1] == PARSER:
                return self._pf[loc[2][-1][1]]
        return ''

    # ------------------------------------------------------------ roots
    def init_state(self, name, cargs=()):
        P = self.P
        self.lexer_fields
        fn = P.fns[name]
        st = State.__new__(State)
        st.gs = 0
        st.frames = []
        st.heap = {}
        st.syms = {}
        st.nid = 0
        st.ev = []
        st.g = None
        pty = self.ty_of_def(PARSER)
        lty = self.ty_of_def(LEXER)
        pos = self.new_pos(st, ('prim', 'entry'))
        lf = []
        for n in self.lexer_fields:
            if n == 'pos':
                lf.append(pos)
            elif n in ('buf', 'buf_skip_lt'):
                lf.append(NONE if short(name) in self.CLEAN_ENTRY else ('prim', 'maybe', pos))
            else:
                lf.append(TOP)
        lex = ('adt', LEXER, 0, tuple(lf))
        fs = []
        entry = []
        for f in P.types[pty]['variants'][0]['fields']:
            n = f['n']
            if n == 'lexer':
                fs.append(lex)
            elif n in self.flag_fields():
                s = self.new_sym(st, f['t'], ('flag', n))
                fs.append(s)
                entry.append(s)
            elif n in self.stack_fields():
                fs.append(('stk', ()))
            elif P.tdef(f['t']) == OPT:
                fs.append(self.new_sym(st, f['t'], ('fld', n)))
            else:
                fs.append(TOP)
        st.heap['self'] = ('adt', PARSER, 0, tuple(fs))
        st.heap['$entry'] = ('tup', tuple(entry))
        locs = {}
        for i in range(fn['argc']):
            ty = fn['locals'][i + 1]
            t = P.ty(ty)
            if t and t['k'] == 'ref' and P.tdef(t['inner']) == PARSER:
                locs[i + 1] = ('ref', ('H', 'self'), ())
                continue
            c = cargs[i - 1] if 0 <= i - 1 < len(cargs) else '_'
            locs[i + 1] = self.arg_value(st, ty, c, i)
        st.frames.append(Frame(fn, 0, locs, None, -1))
        P.prepare(fn)
        return st

    def arg_value(self, st, ty, c, i):
        P = self.P
        t = P.ty(ty)
        if c != '_':
            if c == 'None':
                return NONE
            if c.lstrip('-').isdigit():
                return ('c', int(c))
            if P.tdef(ty) == 'Annot':
                v = self.fresh(st, ty, ('argnode', i))
                self.refine(st, v[3][0][1], P.part(self.node_ty, ())[P.vindex(self.node_ty, c)])
                return v
            inner = ty
            opt = False
            if t and t.get('def') == OPT:
                inner = t['variants'][1]['fields'][0]['t']
                opt = True
            if t and t['k'] == 'param':
                # impl Into<Option<Punct>>: find the enum having this variant
                inner = P.tyname.get('token::Punct')
                opt = True
            k = P.vindex(inner, c) if inner is not None and P.ty(inner)['k'] == 'adt' else None
            if k is not None:
                v = ('adt', P.tdef(inner), k, ())
                return some(v) if opt else v
        if t and t['k'] == 'ref' and t.get('mut'):
            it = P.ty(t['inner'])
            nm = 'arg%d' % i
            if it and it.get('def') == 'std::vec::Vec':
                st.heap[nm] = ('vecm', 0, frozenset())
            else:
                st.heap[nm] = self.fresh(st, t['inner'], ('argnode', i))
            return ('ref', ('H', nm), ())
        if t and t['k'] == 'param':
            inner = P.tyname.get('std::option::Option<token::Punct>')
            return self.fresh(st, inner, ('argnode', i)) if inner is not None else TOP
        return self.fresh(st, ty, ('argnode', i))

    def analyze(self, name, cargs=()):
        self.root = short(name) + str(cargs)
        st = self.init_state(name, cargs)
        return self.explore(st)

    def exit_desc(self, st):
        self.commit(st)
        ret = st.heap.pop('$ret', UNIT)
        rk = 'val'
        body = ret
        if ret[0] == 'adt' and ret[1] == RES:
            rk = 'Ok' if ret[2] == 0 else 'Err'
            body = ret[3][0]
        errk = ''
        if rk == 'Err' and body[0] == 'adt' and body[3]:
            e = body[3][0]
            errk = self.desc(st, e)
            return ('Err', errk, bool(st.heap.get('$poison')))
        me = st.heap['self']
        lex = me[3][self._pf.index('lexer')]
        lexloc = ('loc', ('H', 'self'), (('F', self._pf.index('lexer')),))
        pos = self.lexf(st, lexloc, 'pos')
        prev = self.desc_tok(st, self.pos_get(st, pos, 'prev')) if self.is_pos(st, pos) else '?'
        nxt, nxt2 = self.next_masks(st, pos)
        if nxt == -1 and prev == 'entry' and '$fresh' in st.heap and self.is_pos(st, st.heap['$fresh']):
            # a function that runs a parser of its own: what follows the text this parser accepted
            nxt, nxt2 = self.next_masks(st, st.heap['$fresh'])
        flags = []
        ent = {st.syms[s[1]][2][1]: s for s in st.heap['$entry'][1]}
        for n, x in zip(self._pf, me[3]):
            if n in self.flag_fields():
                e = ent[n]
                if x == e:
                    continue
                em = st.syms[e[1]][1]
                if x[0] == 'c' and em == (1 << x[1]):
                    continue
                flags.append((n, self.flag_val(st, x)))
        coh = all(self.coherent(st, lexloc, f, self.lexf(st, lexloc, f)) for f in ('buf', 'buf_skip_lt'))
        stacks = tuple((n, d) for n, d in self.stacks_desc(st, ('loc', ('H', 'self'), ())) if d)
        return (rk, prev, tuple(flags), stacks, coh, self.desc(st, body), bool(st.heap.get('$poison')), nxt, nxt2,
                not self.filled(st, lexloc))


def short_mod(p):
    return p.split('<')[0] if p.startswith('<') is False else p[1:]
