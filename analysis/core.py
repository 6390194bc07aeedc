"""Disjunctive abstract interpreter over the MIR dump (a path-sensitive dataflow analysis).

Abstract values are nested tuples:
  ('c', n)  integer/bool/char constant          ('s', text)  string constant
  ('top',)  unknown                              ('mv',)  moved-out
  ('adt', def, variant, fields)  ('tup', fields)  ('box', v)  ('clo', path, captures)
  ('ref', base, path)  reference to a place      ('rv', v)  reference to a value
  ('sym', id, path)  unknown value whose possible variants are in State.syms[id]
  ('vec', elems)  vector with exactly these elements   ('vecm', minlen, origins)
  ('stk', elems)  unknown non-empty prefix followed by elems
  ('dsc', v) ('not', v) ('fn', path) ('iter', kind, ...)
A State.syms entry is (type id, mask of possible atoms | None, origin, children).
"""
from prog import Prog, short

TOP = ('top',)
MV = ('mv',)
UNIT = ('tup', ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = ('adt', OPT, 0, ())


def some(v):
    return ('adt', OPT, 1, (v,))


def ok(v):
    return ('adt', RES, 0, (v,))


def err(v):
    return ('adt', RES, 1, (v,))


def cbool(b):
    return ('c', 1 if b else 0)


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


class Infeasible(Exception):
    pass


class AnalysisError(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'bb', 'locals', 'dest', 'target', 'wrap')

    def __init__(s, fn, bb, locals_, dest, target, wrap=None):
        s.fn = fn
        s.bb = bb
        s.locals = locals_
        s.dest = dest
        s.target = target
        s.wrap = wrap

    def copy(s):
        return Frame(s.fn, s.bb, dict(s.locals), s.dest, s.target, s.wrap)


class State:
    __slots__ = ('frames', 'heap', 'syms', 'nid', 'ev', 'g', 'gs')   # gs: the last case taken is a guess

    def copy(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]
        n.heap = dict(s.heap)
        n.syms = dict(s.syms)
        n.nid = s.nid
        n.ev = list(s.ev)
        n.g = s.g
        n.gs = s.gs
        return n


class Engine:
    MAXSTATES = 200000

    def __init__(self, prog):
        self.P = prog
        self.visited_blocks = set()
        self.unknown_calls = {}
        self.models = {}
        self.origin_hook = None

    # ------------------------------------------------------------ symbols
    def new_sym(self, st, ty, origin, mask=None):
        st.nid += 1
        i = st.nid
        if mask is None:
            mask = self.P.full(ty) if ty is not None and ty >= 0 else None
        st.syms[i] = (ty, mask, origin, ())
        return ('sym', i, ())

    def fresh(self, st, ty, origin, depth=0):
        t = self.P.ty(ty)
        if t is None or depth > 4:
            return TOP
        k = t['k']
        if k == 'adt':
            if t.get('box'):
                return ('box', self.fresh(st, t['targs'][0], origin, depth + 1))
            if t['def'].split('::')[-1] == 'Loc':
                return TOP
            if t['def'] == 'Annot':
                return ('adt', 'Annot', 0, tuple(
                    self.fresh(st, f['t'], origin, depth + 1) for f in t['variants'][0]['fields']))
            return self.new_sym(st, ty, origin)
        if k == 'tuple':
            return ('tup', tuple(self.fresh(st, f, origin, depth + 1) for f in t['fields']))
        if k == 'ref':
            return ('rv', self.fresh(st, t['inner'], origin, depth + 1))
        if k in ('bool',):
            return self.new_sym(st, ty, origin)
        return self.new_sym(st, ty, origin)

    def refine(self, st, i, bits):
        ty, mask, org, ch = st.syms[i]
        if mask is None:
            return
        n = mask & bits
        if n == 0:
            raise Infeasible()
        if n != mask:
            st.syms[i] = (ty, n, org, ch)

    def sym_child(self, st, v, vidx, fidx):
        """field fidx of variant vidx of the symbolic value v"""
        _, i, path = v
        ty, mask, org, ch = st.syms[i]
        cty = self.P.deep_child(ty, path) if path else ty
        t = self.P.ty(cty)
        if t is None:
            return TOP
        if t['k'] == 'adt' and t.get('adt') == 'enum':
            if vidx is None:
                return TOP
            var = t['variants'][vidx]
            if fidx >= len(var['fields']):
                return TOP
            if len(var['fields']) == 1 and self.P.pure_enum(var['fields'][0]['t']) and mask is not None:
                return ('sym', i, path + (vidx,))
            fty = var['fields'][fidx]['t']
        else:
            fty = self.P.field_ty(cty, vidx, fidx)
        key = (path, vidx, fidx)
        for k, c in ch:
            if k == key:
                return c
        c = self.fresh(st, fty, ('sub', org, self.vname(cty, vidx), fidx))
        ty, mask, org, ch = st.syms[i]
        st.syms[i] = (ty, mask, org, ch + ((key, c),))
        return c

    def vname(self, ty, vidx):
        t = self.P.ty(ty)
        if t is None or t['k'] != 'adt':
            return ''
        return t['variants'][vidx or 0]['name']

    def sym_ty(self, st, v):
        ty = st.syms[v[1]][0]
        return self.P.deep_child(ty, v[2]) if v[2] else ty

    def materialize(self, st, v, vidx=None):
        """explicit aggregate for symbolic v (variant vidx)"""
        ty = self.sym_ty(st, v)
        t = self.P.ty(ty)
        if t is None or t['k'] != 'adt':
            if t and t['k'] == 'tuple':
                return ('tup', tuple(self.sym_child(st, v, None, k) for k in range(len(t['fields']))))
            return None
        if t.get('adt') == 'enum':
            if vidx is None:
                return None
        else:
            vidx = 0
        n = len(t['variants'][vidx]['fields'])
        return ('adt', t['def'], vidx, tuple(
            self.sym_child(st, v, vidx if t.get('adt') == 'enum' else None, k) for k in range(n)))

    # ------------------------------------------------------------ places
    def base_get(self, st, base):
        if base[0] == 'L':
            return st.frames[base[1]].locals.get(base[2], TOP)
        return st.heap.get(base[1], TOP)

    def base_set(self, st, base, v):
        if base[0] == 'L':
            st.frames[base[1]].locals[base[2]] = v
        else:
            st.heap[base[1]] = v

    def walk(self, st, v, path, pend=None):
        for e in path:
            k = e[0]
            t = v[0]
            if k == 'V':
                pend = e[1]
                if t == 'adt' and v[2] != pend:
                    raise Infeasible()
                continue
            if k == 'F':
                if t == 'adt' or t == 'tup' or t == 'clo':
                    fs = v[-1]
                    v = fs[e[1]] if e[1] < len(fs) else TOP
                elif t == 'sym':
                    v = self.sym_child(st, v, pend, e[1])
                elif t == 'mv':
                    v = MV
                else:
                    v = self.walk_special(st, v, e)
                pend = None
            elif k == 'B':
                if t == 'box':
                    v = v[1]
                elif t == 'mv':
                    pass
                else:
                    v = TOP
            elif k == 'E':
                if t in ('vec', 'stk') and -len(v[1]) <= e[1] < len(v[1]):
                    v = v[1][e[1]]
                else:
                    v = TOP
            elif k == 'P':      # payload of a materialised option etc (wrapper projections)
                v = TOP
            else:
                if t == 'vec' and len(v[1]) == 1:
                    v = v[1][0]
                else:
                    v = TOP
        return v

    def walk_special(self, st, v, e):
        return TOP

    def put(self, st, v, path, nv, ty=None):
        if not path:
            return nv
        e = path[0]
        k = e[0]
        t = v[0]
        if k == 'V':
            if t == 'sym':
                m = self.materialize(st, v, e[1])
                if m is not None:
                    v = m
                    t = 'adt'
            if t == 'adt' and v[2] != e[1]:
                # initialisation of another variant: treat as unknown
                return TOP
            return self.put(st, v, path[1:], nv)
        if k == 'F':
            if t == 'sym':
                m = self.materialize(st, v)
                if m is None:
                    return v
                v = m
                t = m[0]
            if t in ('adt', 'tup', 'clo'):
                fs = list(v[-1])
                while len(fs) <= e[1]:
                    fs.append(TOP)
                fs[e[1]] = self.put(st, fs[e[1]], path[1:], nv)
                return v[:-1] + (tuple(fs),)
            if t == 'uninitbox':
                return v
            return v if t != 'mv' else MV
        if k == 'B':
            if t == 'box':
                return ('box', self.put(st, v[1], path[1:], nv))
            return v
        if k == 'E':
            if t in ('vec', 'stk') and -len(v[1]) <= e[1] < len(v[1]):
                l = list(v[1])
                l[e[1]] = self.put(st, l[e[1]], path[1:], nv)
                return (t, tuple(l))
            return v
        return v

    def resolve(self, st, place):
        """-> ('loc', base, path) or ('val', value)"""
        base = ('L', len(st.frames) - 1, place[0])
        path = ()
        mode = 'loc'
        val = None
        pend = None
        for e in place[1:]:
            k = e[0]
            if k == 'D':
                v = self.walk(st, self.base_get(st, base), path) if mode == 'loc' else val
                t = v[0]
                if t == 'ref':
                    base, path, mode = v[1], v[2], 'loc'
                elif t == 'rv':
                    mode, val = 'val', v[1]
                elif t == 'box':
                    if mode == 'loc':
                        path = path + (('B',),)
                    else:
                        val = v[1]
                elif t == 'uninitbox':
                    if mode == 'loc':
                        path = path + (('U',),)
                    else:
                        val = TOP
                else:
                    mode, val = 'val', TOP if t != 'mv' else MV
                pend = None
            elif mode == 'loc':
                if k in ('F', 'V'):
                    path = path + ((k, e[1]),)
                else:
                    path = path + (('I',),)
            else:
                if k == 'V':
                    pend = e[1]
                    if val[0] == 'adt' and val[2] != pend:
                        raise Infeasible()
                else:
                    val = self.walk(st, val, ((k, e[1]),) if k == 'F' else (('I',),), pend)
                    pend = None
        if mode == 'loc':
            return ('loc', base, path)
        return ('val', val)

    def read_loc(self, st, loc):
        if loc[0] == 'val':
            return loc[1]
        return self.walk(st, self.base_get(st, loc[1]), loc[2])

    def write_loc(self, st, loc, v):
        if loc[0] == 'val':
            return
        base, path = loc[1], loc[2]
        if not path:
            self.base_set(st, base, v)
            return
        cur = self.base_get(st, base)
        if path[0][0] == 'U' or cur[0] == 'uninitbox':
            # writes into a freshly allocated uninitialised box (vec! expansion)
            self.base_set(st, base, ('uninitbox', v))
            return
        self.base_set(st, base, self.put(st, cur, path, v))

    def read_place(self, st, place):
        if len(place) == 1:
            return st.frames[-1].locals.get(place[0], TOP)
        return self.read_loc(st, self.resolve(st, place))

    def write_place(self, st, place, v):
        if len(place) == 1:
            st.frames[-1].locals[place[0]] = v
        else:
            self.write_loc(st, self.resolve(st, place), v)

    def place_ty(self, fn, place):
        ty = fn['locals'][place[0]]
        pend = None
        for e in place[1:]:
            if ty is None or ty < 0:
                return -1
            if e[0] == 'D':
                ty = self.P.inner(ty)
            elif e[0] == 'V':
                pend = e[1]
            elif e[0] == 'F':
                ty = self.P.field_ty(ty, pend, e[1])
                pend = None
            else:
                ty = self.P.inner(ty)
        return ty

    def deref(self, st, v):
        n = 0
        while v[0] in ('ref', 'rv') and n < 6:
            v = self.read_loc(st, ('loc', v[1], v[2])) if v[0] == 'ref' else v[1]
            n += 1
        if v[0] == 'box':
            return v
        return v

    def deref1(self, st, v):
        if v[0] == 'ref':
            return self.read_loc(st, ('loc', v[1], v[2]))
        if v[0] == 'rv':
            return v[1]
        return TOP

    def deref_loc(self, st, v):
        """location a (chain of) reference(s) points to"""
        while v[0] == 'ref':
            nv = self.read_loc(st, ('loc', v[1], v[2]))
            if nv[0] in ('ref', 'rv'):
                v = nv
                continue
            return ('loc', v[1], v[2])
        if v[0] == 'rv':
            if v[1][0] in ('ref', 'rv'):
                return self.deref_loc(st, v[1])
            return ('val', v[1])
        return ('val', TOP)

    # ------------------------------------------------------------ operands
    def operand(self, st, o):
        k = o[0]
        if k == 'cp':
            return self.read_place(st, o[1])
        if k == 'mv':
            v = self.read_place(st, o[1])
            if v[0] not in ('c', 'top', 's', 'ref'):
                self.write_place(st, o[1], MV)
            return v
        if k == 'const':
            return self.const(st, o[1], st.frames[-1].fn if st.frames else None)
        return TOP

    def const(self, st, c, fn):
        k = c['k']
        if k == 'lit':
            t = self.P.ty(c['t'])
            v = c.get('v')
            if t and t['k'] == 'adt' and t.get('adt') == 'enum':
                # constant of an enum type with a scalar layout: unknown mapping -> by discriminant
                for i, var in enumerate(t['variants']):
                    if var['discr'] == str(v) and not var['fields']:
                        return ('adt', t['def'], i, ())
                return TOP
            if t and t['k'] == 'adt':
                return TOP
            try:
                n = int(v)
            except (TypeError, ValueError):
                return TOP
            if t and t['k'] == 'int' and n >= 1 << (t['bits'] - 1):
                n -= 1 << t['bits']
            return ('c', n)
        if k == 'str':
            return ('rv', ('s', c['v']))
        if k == 'fn':
            return ('fn', c.get('res') or c['fn'], c.get('res_local') or c.get('local'))
        if k == 'promoted':
            own = self.P.fns.get(c['owner'])
            if own is None:
                return TOP
            return self.eval_promoted(st, own, c['idx'])
        if k == 'other' and c.get('name'):
            f = self.P.fns.get(c['name'])
            if f is not None and f['kind'] in ('const', 'static'):
                return self.eval_const_body(st, f)
        return TOP

    def eval_promoted(self, st, own, idx):
        body = own['promoted'][idx]
        return self.eval_const_body(st, body)

    def eval_const_body(self, st, body):
        """straight-line evaluation of a promoted constant; values are self-contained"""
        key = id(body)
        c = self._cc.get(key) if hasattr(self, '_cc') else None
        if c is not None:
            return c
        if not hasattr(self, '_cc'):
            self._cc = {}
        tmp = State.__new__(State)
        tmp.gs = 0
        tmp.frames = [Frame(body, 0, {}, None, -1)]
        tmp.heap = {}
        tmp.syms = {}
        tmp.nid = 0
        tmp.ev = []
        tmp.g = None
        res = TOP
        bb = 0
        for _ in range(60):
            blk = body['blocks'][bb]
            try:
                for s in blk['s']:
                    self.stmt(tmp, s)
            except Infeasible:
                break
            t = blk['t']
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] in ('drop',):
                bb = t[2]
            elif t[0] == 'assert':
                bb = t[4]
            elif t[0] == 'return':
                res = self.close(tmp, tmp.frames[-1].locals.get(0, TOP))
                break
            else:
                break
        self._cc[key] = res
        return res

    def close(self, st, v, d=0):
        """replace refs to locals by references to values"""
        if d > 8:
            return TOP
        t = v[0]
        if t == 'ref':
            return ('rv', self.close(st, self.read_loc(st, ('loc', v[1], v[2])), d + 1))
        if t == 'rv':
            return ('rv', self.close(st, v[1], d + 1))
        if t in ('adt', 'tup', 'clo'):
            return v[:-1] + (tuple(self.close(st, x, d + 1) for x in v[-1]),)
        if t == 'vec':
            return ('vec', tuple(self.close(st, x, d + 1) for x in v[1]))
        if t == 'box':
            return ('box', self.close(st, v[1], d + 1))
        if t == 'sym':
            return TOP
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, st, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, s[2], s)
            self.write_place(st, s[1], v)
        elif k == 'dead':
            st.frames[-1].locals.pop(s[1], None)
        elif k == 'setdiscr':
            self.write_place(st, s[1], TOP)

    def rvalue(self, st, r, s):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref':
            if r[1] == 'fake':
                return TOP
            return self.mkref(st, r[2])
        if k == 'agg':
            kk = r[1]
            fs = tuple(self.operand(st, o) for o in r[2])
            if kk[0] == 'adt':
                v = ('adt', kk[1], kk[2], fs)
                self.on_build(st, v, kk, s)
                return v
            if kk[0] == 'tuple':
                return ('tup', fs)
            if kk[0] == 'array':
                return ('vec', fs)
            if kk[0] == 'closure':
                return ('clo', kk[1], fs)
            return TOP
        if k == 'discr':
            loc = self.resolve(st, r[1])
            v = self.read_loc(st, loc)
            return self.discr_of(st, v, loc, self.place_ty(st.frames[-1].fn, r[1]))
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r)
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                if v[0] == 'c':
                    return ('c', 0 if v[1] else 1) if v[1] in (0, 1) else TOP
                if v[0] == 'not':
                    return v[1]
                if v[0] == 'sym' or v[0] == 'cmp':
                    return ('not', v)
                return TOP
            if r[1] == 'PtrMetadata':
                x = self.deref(st, v)
                if x[0] == 'vec':
                    return ('c', len(x[1]))
                return TOP
            return self.unop(st, r[1], v)
        if k == 'cast':
            return self.cast(st, r, self.operand(st, r[2]))
        return TOP

    def cast(self, st, r, v):
        if v[0] == 'c':
            t = self.P.ty(r[4])
            if t and t['k'] in ('int', 'uint'):
                b = t['bits']
                n = v[1] & ((1 << b) - 1)
                if t['k'] == 'int' and n >= 1 << (b - 1):
                    n -= 1 << b
                return ('c', n)
            return v if t and t['k'] in ('char',) else TOP
        if v[0] in ('ref', 'rv', 'box', 'fn', 'clo'):
            return v
        return TOP

    def unop(self, st, op, v):
        return TOP

    CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
           'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}

    def binop(self, st, op, a, b, r):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in self.CMP:
            if a[0] == 'c' and b[0] == 'c':
                return cbool(self.CMP[base](a[1], b[1]))
            if a[0] == 'prim' and a[1] == 'ge' and b[0] == 'c' or b[0] == 'prim' and b[1] == 'ge' and a[0] == 'c':
                # a number that is at least n
                f = self.CMP[base]
                n, c, sw = (a[2], b[1], False) if a[0] == 'prim' else (b[2], a[1], True)
                rs = {f(c, x) if sw else f(x, c) for x in (n, n + 1, max(n, c), max(n, c) + 1)}
                return cbool(rs.pop()) if len(rs) == 1 else TOP
            if base in ('Eq', 'Ne'):
                x = self.sym_eq_const(st, a, b)
                if x is not None:
                    return x if base == 'Eq' else ('not', x)
            return TOP
        res = TOP
        if base in ('Add', 'Sub') and not (a[0] == 'c' and b[0] == 'c'):
            st.ev.append(('count',))
        if a[0] == 'c' and b[0] == 'c':
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y}.get(base)
            if f:
                n = f(a[1], b[1])
                if -4 <= n <= 1000000:
                    res = ('c', n) if n <= 3 or (a[1] > 3 or b[1] > 3) else TOP
            elif base == 'BitAnd':
                res = ('c', a[1] & b[1])
            elif base == 'BitOr':
                res = ('c', a[1] | b[1])
        elif base in ('BitAnd', 'BitOr') and (a[0] == 'c' or b[0] == 'c'):
            # boolean identity/absorption
            c, o = (a, b) if a[0] == 'c' else (b, a)
            if base == 'BitAnd':
                res = ('c', 0) if c[1] == 0 else o
            else:
                res = o if c[1] == 0 else TOP
        if op.endswith('WithOverflow'):
            return ('tup', (res, ('c', 0)))
        return res

    def sym_eq_const(self, st, a, b):
        return None

    def mkref(self, st, place):
        loc = self.resolve(st, place)
        if loc[0] == 'val':
            return ('rv', loc[1])
        return ('ref', loc[1], loc[2])

    def discr_of(self, st, v, loc, ty):
        t = v[0]
        if t == 'adt':
            d = v[2]
            tt = self.P.ty(ty)
            if tt and tt['k'] == 'adt':
                d = int(tt['variants'][v[2]]['discr'])
            return ('c', d)
        if t == 'sym':
            return ('dsc', v, self.sym_ty(st, v))
        if t == 'top' and self.P.is_enum(ty):
            nv = self.new_sym(st, ty, ('unk',))
            self.write_loc(st, loc, nv)
            return ('dsc', nv, ty)
        return TOP

    def on_build(self, st, v, kk, s):
        pass

    # ------------------------------------------------------------ switch
    def switch(self, st, t):
        """-> list of (state, target)"""
        return self.switch_value(st, self.operand(st, t[1]), t[3], t[4])

    def truth(self, st, v):
        """-> list of (state, bool)"""
        return [(s, bool(b)) for s, b in self.switch_value(st, v, [('0', 0)], 1)]

    def switch_value(self, st, v, cases, other):
        if v[0] == 'c':
            for val, bb in cases:
                if int(val) == v[1]:
                    return [(st, bb)]
            return [(st, other)]
        neg = False
        if v[0] == 'not':
            v = v[1]
            neg = True
        if v[0] == 'sym' and st.syms[v[1]][1] is not None:
            st.gs = self.guess(st, v)
            part = self.P.part(st.syms[v[1]][0], v[2])
            groups = {}
            for k, m in part.items():
                kk = (1 - k) if neg else k
                groups[kk] = m
            return self._fork_sym(st, v[1], groups, cases, other)
        if v[0] == 'dsc':
            sv = v[1]
            ty = v[2]
            tt = self.P.types[ty]
            mask = st.syms[sv[1]][1]
            if mask is not None:
                st.gs = self.guess(st, sv)
                part = self.P.part(st.syms[sv[1]][0], sv[2])
                groups = {int(tt['variants'][k]['discr']): m for k, m in part.items()}
                return self._fork_sym(st, sv[1], groups, cases, other)
        if v[0] == 'prim' and v[1] == 'ge':
            cases = [(x, bb) for x, bb in cases if int(x) >= v[2]]
        st.gs = 0
        r = self.switch_special(st, v, neg, cases, other)
        if r is not None:
            return r
        st.gs = 1
        outs = []
        tg = []
        for val, bb in cases:
            if bb not in tg:
                tg.append(bb)
        if other is not None and other >= 0 and other not in tg:
            tg.append(other)
        for i, bb in enumerate(tg):
            outs.append((st if i == len(tg) - 1 else st.copy(), bb))
        return outs

    def switch_special(self, st, v, neg, cases, other):
        return None

    KNOWN = {'tok', 'scan', 'lvar', 'lex', 'cell', 'ch', 'past', 'old'}

    def guess(self, st, v):
        """1 if nothing is known about the origin of this value"""
        o = st.syms[v[1]][2]
        while o and o[0] == 'sub':
            o = o[1]
        return 0 if o and o[0] in self.KNOWN else 1

    def _fork_sym(self, st, sid, groups, cases, other):
        mask = st.syms[sid][1]
        by = {}
        used = 0
        for val, bb in cases:
            m = groups.get(int(val), 0) & mask
            used |= groups.get(int(val), 0)
            if m:
                by[bb] = by.get(bb, 0) | m
        rest = 0
        for k, m in groups.items():
            rest |= m
        rest &= mask & ~used
        if rest and other is not None and other >= 0:
            by[other] = by.get(other, 0) | rest
        outs = []
        items = list(by.items())
        for i, (bb, m) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            self.refine(s, sid, m)
            outs.append((s, bb))
        return outs

    # ------------------------------------------------------------ equality
    def atoms_of_value(self, ty, path, v):
        """bitmask of atoms of type ty that may equal v at nesting path; exact?"""
        P = self.P
        bits = 0
        exact = True
        cur = path
        t = v
        while True:
            if t[0] == 'c':
                part = P.part(ty, cur)
                return part.get(t[1], 0), exact
            if t[0] != 'adt':
                part = P.part(ty, cur)
                for m in part.values():
                    bits |= m
                return bits, False
            part = P.part(ty, cur)
            if not part:
                return P.full(ty), False
            m = part.get(t[2], 0)
            cty = P.deep_child(ty, cur) if cur else ty
            fs = P.types[cty]['variants'][t[2]]['fields'] if P.types[cty]['k'] == 'adt' else []
            if not fs:
                return m, True
            if len(fs) == 1 and P.pure_enum(fs[0]['t']):
                cur = cur + (t[2],)
                t = t[3][0]
                continue
            return m, False

    def compare(self, st, a, b):
        """equality of two abstract values -> list of (result, [(sym, bits)])"""
        a = self.deref(st, a)
        b = self.deref(st, b)
        if a[0] == 'c' and b[0] == 'c':
            return [(a[1] == b[1], [])]
        if a[0] == 's' and b[0] == 's':
            return [(a[1] == b[1], [])]
        if a[0] == 'box' and b[0] == 'box':
            return self.compare(st, a[1], b[1])
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2]:
                return [(False, [])]
            return self.compare_fields(st, a[3], b[3])
        if a[0] == 'tup' and b[0] == 'tup':
            return self.compare_fields(st, a[1], b[1])
        if b[0] == 'sym' and a[0] != 'sym':
            a, b = b, a
        if a[0] == 'sym' and st.syms[a[1]][1] is not None:
            if b == a:
                return [(True, [])]
            if b[0] in ('adt', 'c'):
                ty = st.syms[a[1]][0]
                bits, exact = self.atoms_of_value(ty, a[2], b)
                mask = st.syms[a[1]][1]
                inpath = 0
                for m in self.P.part(ty, a[2]).values():
                    inpath |= m
                inpath &= mask
                y = bits & inpath
                n = (inpath & ~bits) if exact else inpath
                out = []
                if y:
                    out.append((True, [(a[1], y)]))
                if n:
                    out.append((False, [(a[1], n)]))
                # payload comparison for a partially symbolic payload: leave unrefined
                return out
        if a[0] == 'sym' and a == b:
            return [(True, [])]
        return [(True, []), (False, [])]

    def compare_fields(self, st, fa, fb):
        res = [(True, [])]
        for x, y in zip(fa, fb):
            c = self.compare(st, x, y)
            nr = []
            for r, rf in res:
                if not r:
                    nr.append((r, rf))
                    continue
                for r2, rf2 in c:
                    nr.append((r2, rf + rf2))
            res = nr
        # merge all False outcomes without refinement conflicts
        outs = []
        falses = [rf for r, rf in res if not r]
        for r, rf in res:
            if r:
                outs.append((True, rf))
        if falses:
            if len(falses) == 1:
                outs.append((False, falses[0]))
            else:
                for rf in falses:
                    outs.append((False, rf))
        return outs

    # ------------------------------------------------------------ reachability of symbols
    def value_syms(self, v, out):
        t = v[0]
        if t == 'sym':
            out.add(v[1])
        elif t in ('adt', 'tup', 'clo'):
            for x in v[-1]:
                self.value_syms(x, out)
        elif t in ('vec', 'stk'):
            for x in v[1]:
                self.value_syms(x, out)
        elif t in ('box', 'rv', 'not', 'dsc', 'uninitbox'):
            self.value_syms(v[1], out)
        elif t in ('iter', 'prim', 'cmp'):
            for x in v[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    self.value_syms(x, out)

    # ------------------------------------------------------------ canonical form
    def canon(self, st):
        ren = {}
        order = []
        syms = st.syms

        def cv(v):
            t = v[0]
            if t == 'sym':
                i = v[1]
                if i not in ren:
                    ren[i] = len(ren) + 1
                    order.append(i)
                return ('sym', ren[i], v[2])
            if t == 'adt':
                return ('adt', v[1], v[2], tuple([cv(x) for x in v[3]])) if v[3] else v
            if t == 'tup':
                return ('tup', tuple([cv(x) for x in v[1]])) if v[1] else v
            if t == 'clo':
                return ('clo', v[1], tuple([cv(x) for x in v[2]]))
            if t in ('vec', 'stk'):
                return (t, tuple([cv(x) for x in v[1]]))
            if t in ('box', 'rv', 'not', 'uninitbox'):
                return (t, cv(v[1]))
            if t == 'dsc':
                return ('dsc', cv(v[1]), v[2])
            if t == 'again':
                return ('again', v[1], tuple([cv(x) for x in v[2]]))
            if t in ('iter', 'prim', 'cmp'):
                return (t,) + tuple([cv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
                                     for x in v[1:]])
            return v
        fr = []
        top = len(st.frames) - 1
        for d, f in enumerate(st.frames):
            self.P.prepare(f.fn)
            fn = f.fn
            if d == top:
                live = fn['live'][f.bb]
            else:
                live = fn['live'][f.target] if False else None
            L = f.locals
            addr = fn['addr']
            if live is not None:
                ks = [k for k in sorted(L) if k in live or k in addr]
            else:
                lv = self.live_after_call(st, d)
                ks = [k for k in sorted(L) if k in lv or k in addr]
            items = tuple([(k, cv(L[k])) for k in ks])
            fr.append((fn['path'], f.bb, items, f.dest, f.target, f.wrap))
        hp = tuple([(k, cv(st.heap[k])) for k in sorted(st.heap)])
        g = cv(st.g) if st.g is not None else None
        se = []
        j = 0
        while j < len(order):
            i = order[j]
            j += 1
            ty, mask, org, ch = syms[i]
            if ch:
                nch = []
                for k, c in ch:
                    if isinstance(k, str) or self.keep_child(syms, c, ren):
                        nch.append((k, cv(c)))
                ch = tuple(nch)
            se.append((ty, mask, org, ch))
        return (tuple(fr), hp, g, tuple(se), st.gs)

    def keep_child(self, syms, c, ren):
        """a memoised payload is kept if it is referenced or refined"""
        ss = set()
        self.value_syms(c, ss)
        for i in ss:
            if i in ren:
                return True
            ty, mask, org, ch = syms[i]
            if ty >= 0 and mask is not None and mask != self.P.full(ty):
                return True
            for _, cc in ch:
                if self.keep_child(syms, cc, ren):
                    return True
        return False

    def live_after_call(self, st, d):
        f = st.frames[d]
        callee = st.frames[d + 1]
        tgt = callee.target
        if tgt is None or tgt < 0:
            return ()
        s = f.fn['live'][tgt]
        dst = callee.dest
        if dst is not None and dst[0] == 'place' and len(dst[1]) > 1:
            s = s | {dst[1][0]}
        return s

    def from_canon(self, key, ev=None):
        st = State.__new__(State)
        fr, hp, g, se, gs = key
        st.gs = gs
        st.frames = []
        for path, bb, items, dest, target, wrap in fr:
            fn = self.P.fns[path]
            st.frames.append(Frame(fn, bb, dict(items), dest, target, wrap))
        st.heap = dict(hp)
        st.syms = {i + 1: e for i, e in enumerate(se)}
        st.nid = len(se)
        st.ev = []
        st.g = g
        return st

    # ------------------------------------------------------------ exploration
    def explore(self, init):
        """-> Graph. Nodes are canonical states at join points; edges carry event lists."""
        G = Graph()
        init.ev = []
        k0 = self.canon(init)
        G.add(k0)
        work = [0]
        while work:
            n = work.pop()
            st = self.from_canon(G.keys[n])
            try:
                succ = self.run(st)
            except AnalysisError as e:
                raise AnalysisError('%s (in %s)' % (e, st.frames[-1].fn['path'] if st.frames else '?'))
            for kind, s in succ:
                if kind == 'exit':
                    d = self.exit_desc(s)
                    G.edge(n, tuple(s.ev), G.exit_node(d))
                    continue
                ev = tuple(s.ev)
                if False:
                    pass
                elif kind == 'dead':
                    G.edge(n, ev, G.exit_node(('dead',)))
                else:
                    k = self.canon(s)
                    m = G.index.get(k)
                    if m is None:
                        m = G.add(k)
                        work.append(m)
                        if len(G.keys) > self.MAXSTATES:
                            raise AnalysisError('state limit exceeded in %s' % self.root)
                    G.edge(n, ev, m)
        return G

    def exit_desc(self, st):
        return ('exit',)

    def run(self, st):
        """run from the current block until join points / exits.  -> [(kind, state)]"""
        outs = []
        stack = [st]
        first = True
        while stack:
            s = stack.pop()
            while True:
                f = s.frames[-1]
                fn = f.fn
                bb = f.bb
                if fn['joins'] is None:
                    self.P.prepare(fn)
                if not first and fn['joins'][bb] and self.node_here(s):
                    outs.append(('node', s))
                    break
                first = False
                self.visited_blocks.add((fn['path'], bb))
                try:
                    nxt = self.step_block(s)
                except Infeasible:
                    break
                if not nxt:
                    break
                if len(nxt) == 1:
                    kind, s = nxt[0]
                    if kind != 'go':
                        outs.append(nxt[0])
                        break
                    continue
                cont = None
                for kind, x in nxt:
                    if kind == 'go':
                        if cont is None:
                            cont = x
                        else:
                            stack.append(x)
                    else:
                        outs.append((kind, x))
                if cont is None:
                    break
                s = cont
        return outs

    def node_here(self, s):
        return True

    def step_block(self, st):
        """execute one block; -> list of ('go'|'exit'|'dead', state)"""
        f = st.frames[-1]
        if f.fn['epilogue'][f.bb]:
            r = f.locals.get(0)
            if r is not None and r[0] == 'adt' and r[1] == RES and r[2] == 1:
                return self.do_return(st)      # an error: what the locals hold does not matter any more
        blk = f.fn['blocks'][f.bb]
        t = blk['t']
        k = t[0]
        again = st.heap.pop('$again%d' % len(st.frames), None)
        if again is not None:
            # the next round of an iterator method
            return self.after_call(st, t, self.iter_search(st, again[1], list(again[2]), t))
        for s in blk['s']:
            if s[0] == 'live':
                continue
            self.stmt(st, s)
        if k == 'goto':
            f.bb = t[1]
            return [('go', st)]
        if k == 'switch':
            r = []
            for s, bb in self.switch(st, t):
                s.frames[-1].bb = bb
                r.append(('go', s))
            return r
        if k == 'drop':
            self.on_drop(st, t)
            f.bb = t[2]
            return [('go', st)]
        if k == 'assert':
            return self.do_assert(st, t)
        if k == 'return':
            return self.do_return(st)
        if k == 'call':
            return self.do_call(st, t)
        if k == 'unreachable':
            return self.on_unreachable(st, t)
        if k == 'resume':
            return []
        raise AnalysisError('terminator %s' % k)

    def on_unreachable(self, st, t):
        return []

    def do_assert(self, st, t):
        st.frames[-1].bb = t[4]
        return [('go', st)]

    def on_drop(self, st, t):
        self.write_place(st, t[1], MV)

    def do_return(self, st):
        f = st.frames[-1]
        v = f.locals.get(0, UNIT)
        if len(st.frames) == 1:
            st.heap['$ret'] = v
            return [('exit', st)]
        v = self.detach(st, v)
        st.frames.pop()
        if f.wrap is not None:
            rs = self.apply_wrap(st, f.wrap, v)
        else:
            rs = [(st, v)]
        out = []
        for s, x in rs:
            if x is not None:       # None: another round of an iterator method
                self.set_dest(s, f.dest, x)
                s.frames[-1].bb = f.target
            out.append(('go', s))
        return out

    def detach(self, st, v):
        """references into the frame being popped become value references"""
        d = len(st.frames) - 1

        def go(v, n=0):
            t = v[0]
            if t == 'ref':
                if v[1][0] == 'L' and v[1][1] >= d:
                    return ('rv', go(self.read_loc(st, ('loc', v[1], v[2])), n + 1))
                return v
            if n > 8:
                return v
            if t in ('adt', 'tup', 'clo'):
                return v[:-1] + (tuple(go(x, n + 1) for x in v[-1]),)
            if t in ('box', 'rv'):
                return (t, go(v[1], n + 1))
            return v
        return go(v)

    def apply_wrap(self, st, wrap, v):
        k = wrap[0]
        if k == 'Some':
            return [(st, some(v))]
        if k == 'Ok':
            return [(st, ok(v))]
        if k == 'Err':
            return [(st, err(v))]
        if k == 'const':
            return [(st, wrap[1])]
        if k == 'search':
            return self.search_result(st, wrap[1], v)
        return [(st, v)]

    def set_dest(self, st, dest, v):
        if dest is None:
            return
        if dest[0] == 'place':
            self.write_place(st, dest[1], v)

    # ------------------------------------------------------------ calls
    def do_call(self, st, t):
        func, args, dest, target = t[1], t[2], t[3], t[4]
        argv = [self.operand(st, a) for a in args]
        if func[0] == 'const' and func[1].get('k') == 'fn':
            info = func[1]
            name = info.get('res') or info['fn']
        else:
            fv = self.operand(st, func)
            info = {'fn': 'indirect', 'local': False}
            if fv[0] == 'fn':
                info = {'fn': fv[1], 'local': fv[2], 'res': fv[1], 'res_local': fv[2]}
            name = info['fn']
        if getattr(self, 'trace', None):
            self.trace(st, name, argv, t)
        return self.after_call(st, t, self.call(st, name, info, argv, t))

    def after_call(self, st, t, r):
        dest, target = t[3], t[4]
        # r: list of (state, value) | ('frame', state) entries
        out = []
        for item in r:
            if item[0] == 'frame':
                out.append(('go', item[1]))
                continue
            if item[0] == 'dead':
                out.append(('dead', item[1]))
                continue
            s, v = item
            if target < 0:
                continue
            self.write_place(s, dest, v)
            s.frames[-1].bb = target
            out.append(('go', s))
        return out

    def push_call(self, st, fn, argv, dest, target, wrap=None):
        locs = {}
        for i, a in enumerate(argv):
            locs[i + 1] = a
        if dest is not None and dest[0] == 'place':
            dest = ('place', freeze(dest[1]))
        st.frames.append(Frame(fn, 0, locs, dest, target, wrap))
        self.P.prepare(fn)
        return ('frame', st)

    def call_closure(self, st, clo, args, t, wrap=None):
        """call a closure or fn value with a tuple of args"""
        dest, target = t[3], t[4]
        if clo[0] == 'ref' or clo[0] == 'rv':
            clo = self.deref(st, clo)
        if clo[0] == 'clo':
            fn = self.P.fns.get(clo[1])
            if fn is None:
                raise AnalysisError('closure body %s missing' % clo[1])
            # env: by ref or by value depending on the type of _1
            ety = self.P.ty(fn['locals'][1])
            env = ('rv', clo) if ety and ety['k'] == 'ref' else clo
            return [self.push_call(st, fn, [env] + list(args), ('place', dest), target, wrap)]
        if clo[0] == 'fn':
            fn = self.P.fns.get(clo[1])
            if fn is not None and wrap is None:
                return self.call(st, clo[1], {'fn': clo[1], 'local': True, 'res': clo[1], 'res_local': True}, list(args), t)
            if fn is not None:
                return [self.push_call(st, fn, list(args), ('place', dest), target, wrap)]
            # constructor used as function
            v = self.ctor_value(clo[1], args)
            if v is not None:
                return self.apply_wrap(st, wrap, v) if wrap else [(st, v)]
        return self.apply_wrap(st, wrap, TOP) if wrap else [(st, TOP)]

    def ctor_value(self, name, args):
        if name.endswith('Box::<T>::new'):
            return ('box', args[0])
        for t in self.P.types:
            if t['k'] == 'adt' and t.get('variants'):
                for i, v in enumerate(t['variants']):
                    if name == t['def'] + '::' + v['name'] or (name == t['def'] and t['adt'] == 'struct'):
                        if len(v['fields']) == len(args):
                            return ('adt', t['def'], i, tuple(args))
        return None

    def call(self, st, name, info, argv, t):
        raise NotImplementedError


class Graph:
    def __init__(s):
        s.keys = []
        s.index = {}
        s.out = []
        s.exits = {}

    def add(s, k):
        s.index[k] = len(s.keys)
        s.keys.append(k)
        s.out.append([])
        return len(s.keys) - 1

    def exit_node(s, d):
        k = ('EXIT', d)
        if k not in s.index:
            s.add(k)
            s.exits[s.index[k]] = d
        return s.index[k]

    def edge(s, a, ev, b):
        e = (ev, b)
        if e not in s.out[a]:
            s.out[a].append(e)
