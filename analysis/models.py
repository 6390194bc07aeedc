"""Abstract semantics of the external (std) functions the parser uses."""
from core import *
import functools, re


@functools.lru_cache(None)
def norm(name):
    """strip ::<...> generic segments: std::option::Option::<T>::unwrap -> std::option::Option::unwrap"""
    out = []
    i = 0
    n = len(name)
    while i < n:
        if name.startswith('::<', i) and not name.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < n:
                if name[j] == '<':
                    d += 1
                elif name[j] == '>' and name[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(name[i])
        i += 1
    return ''.join(out)


# iterators without an end
ENDLESS = re.compile(r'RangeFrom|Repeat|Cycle|FromFn|Successors|OnceWith')


class Models(Engine):
    """call() dispatch for external functions"""

    def split(self, st, v, names):
        """case split of an enum value -> [(state, variant index, fields)]"""
        t = v[0]
        if t == 'adt':
            return [(st, v[2], list(v[3]))]
        if t == 'sym' and st.syms[v[1]][1] is not None:
            part = self.P.part(st.syms[v[1]][0], v[2])
            mask = st.syms[v[1]][1]
            todo = [(k, m & mask) for k, m in sorted(part.items()) if m & mask]
            out = []
            if len(todo) > 1:
                st.gs = self.guess(st, v)
            for j, (k, m) in enumerate(todo):
                s = st if j == len(todo) - 1 else st.copy()
                self.refine(s, v[1], m)
                ty = self.sym_ty(s, v)
                nf = len(self.P.types[ty]['variants'][k]['fields'])
                out.append((s, k, [self.sym_child(s, v, k, i) for i in range(nf)]))
            return out
        out = []
        st.gs = 1
        for j, k in enumerate(names):
            s = st if j == len(names) - 1 else st.copy()
            out.append((s, k, [TOP] * names[k]))
        return out

    OPTN = {0: 0, 1: 1}
    RESN = {0: 1, 1: 1}

    def content(self, st, v, depth=0):
        return self.deref(st, v)

    def havoc_ref(self, st, v, why):
        """unknown callee may write through a mutable reference"""
        if v[0] == 'ref':
            loc = self.deref_loc(st, v)
            if loc[0] == 'loc':
                cur = self.read_loc(st, loc)
                nv = self.havoc_value(st, cur, why)
                if nv is not cur:
                    self.write_loc(st, loc, nv)

    def havoc_value(self, st, cur, why):
        if cur[0] in ('vec', 'vecm'):
            return ('vecm', 0, frozenset())
        if cur[0] in ('c', 's'):
            return TOP
        return cur

    def vec_len(self, v):
        if v[0] == 'vec':
            return len(v[1]), len(v[1])
        if v[0] == 'vecm':
            return v[1], None
        return 0, None

    def vec_origins(self, st, v):
        o = set()
        if v[0] == 'vec':
            for x in v[1]:
                self.origins_of(st, x, o)
        elif v[0] == 'vecm':
            o |= v[2]
        return o

    def origins_of(self, st, v, out):
        t = v[0]
        if t == 'sym':
            out.add(self.simple_origin(st.syms[v[1]][2]))
        elif t in ('adt', 'tup'):
            for x in v[-1]:
                self.origins_of(st, x, out)
        elif t in ('box', 'rv'):
            self.origins_of(st, v[1], out)
        elif t == 'vec':
            for x in v[1]:
                self.origins_of(st, x, out)
        elif t == 'vecm':
            out |= v[2]

    def simple_origin(self, o):
        return o

    VECCAP = 1

    def vorig(self, o):
        return frozenset(o)

    def vec_push(self, st, v, x):
        if v[0] == 'stk':
            return ('stk', v[1] + (x,))
        if v[0] == 'vec' and len(v[1]) < self.VECCAP:
            return ('vec', v[1] + (x,))
        o = self.vec_origins(st, v)
        self.origins_of(st, x, o)
        n = min(self.vec_len(v)[0] + 1, self.VECCAP + 1)
        return ('vecm', n, self.vorig(o))

    def external(self, st, name, info, argv, t):
        """model of an external function; returns list or None when unknown"""
        n = norm(name)
        trait = norm(info['fn'])
        last = n.rsplit('::', 1)[-1]
        destty = t[5]
        A = argv

        # ---- identity-like
        if trait in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::Borrow::borrow',
                     'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut'):
            v = A[0]
            loc = self.deref_loc(st, v)
            x = self.read_loc(st, loc)
            if x[0] == 'box' and loc[0] == 'loc':
                return [(st, ('ref', loc[1], loc[2] + (('B',),)))]
            if x[0] == 'box':
                return [(st, ('rv', x[1]))]
            return [(st, ('ref', loc[1], loc[2]) if loc[0] == 'loc' else ('rv', loc[1]))]
        if last in ('as_str', 'as_bytes', 'as_slice', 'as_mut_slice', 'by_ref', 'as_mut_str', 'borrow') and len(A) == 1 \
                and (n.startswith('std::string') or n.startswith('core::str') or n.startswith('std::vec')
                     or n.startswith('std::str') or last == 'by_ref'):
            return [(st, A[0])]
        if trait in ('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string',
                     'std::clone::Clone::clone_from') or last in ('into_owned', 'to_vec', 'into_boxed_str', 'into_string'):
            v = self.deref(st, A[0])
            return [(st, self.cloned(st, v, trait))]
        if trait in ('std::convert::Into::into', 'std::convert::From::from'):
            return [(st, self.into(st, A[0], destty, t))]
        if trait == 'std::iter::IntoIterator::into_iter':
            return [(st, self.mk_iter(st, A[0], 'into'))]
        if trait == 'std::default::Default::default':
            return [(st, self.default(st, destty))]
        if n in ('std::hint::must_use', 'std::convert::identity'):
            return [(st, A[0])]

        # ---- ? operator
        if trait == 'std::ops::Try::branch':
            return self.try_branch(st, A[0], t)
        if trait == 'std::ops::FromResidual::from_residual':
            r = A[0]
            if r[0] == 'adt' and r[1] == OPT:
                return [(st, NONE)]
            tt = self.P.ty(destty)
            if tt and tt.get('def') == OPT:
                return [(st, NONE)]
            if r[0] == 'adt':
                return [(st, err(r[3][0] if r[3] else TOP))]
            return [(st, err(TOP))]

        # ---- equality / ordering
        if trait in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            neg = trait.endswith('::ne')
            return self.do_eq(st, A[0], A[1], neg)
        if trait.startswith('std::cmp::PartialOrd::') or trait.startswith('std::cmp::Ord::'):
            r = self.do_ord(st, trait.rsplit('::', 1)[-1], A)
            if r is not None:
                return r

        # ---- mem
        if n in ('std::mem::take', 'std::mem::replace', 'std::mem::swap'):
            loc = self.deref_loc(st, A[0])
            v = self.read_loc(st, loc)
            if n.endswith('take'):
                self.write_loc(st, loc, self.default(st, destty))
                return [(st, v)]
            if n.endswith('replace'):
                self.write_loc(st, loc, A[1])
                return [(st, v)]
            loc2 = self.deref_loc(st, A[1])
            v2 = self.read_loc(st, loc2)
            self.write_loc(st, loc, v2)
            self.write_loc(st, loc2, v)
            return [(st, UNIT)]
        if n == 'std::mem::drop':
            self.drop_value(st, A[0])
            return [(st, UNIT)]
        if n == 'std::boxed::Box::new':
            return [(st, ('box', A[0]))]
        if n == 'std::boxed::Box::new_uninit':
            return [(st, ('uninitbox', TOP))]
        if n.endswith('box_assume_init_into_vec_unsafe') or n.endswith('into_vec'):
            v = A[0]
            if v[0] == 'uninitbox':
                v = v[1]
            if v[0] == 'box':
                v = v[1]
            if v[0] == 'vec':
                out = ('vec', ())
                for x in v[1]:
                    out = self.vec_push(st, out, x)
                return [(st, out)]
            return [(st, ('vecm', 0, frozenset()))]

        # ---- Option / Result
        if n.startswith('std::option::Option::') or n.startswith('std::result::Result::'):
            r = self.optres(st, n, last, A, t)
            if r is not None:
                return r

        # ---- Vec / slice
        if n.startswith('std::vec::Vec::') or n.startswith('core::slice') or n.startswith('std::slice') \
                or trait.startswith('std::ops::Index'):
            r = self.vecops(st, n, last, A, t)
            if r is not None:
                return r

        # ---- iterators
        if trait.startswith('std::iter::') or n.startswith('std::iter::'):
            r = self.iterops(st, last, A, t)
            if r is not None:
                return r
        # ---- numeric
        if last == 'checked_neg' and A and A[0][0] == 'sym':
            return [(st.copy(), NONE), (st, some(self.neg(st, A[0])))]
        if trait == 'std::ops::Neg::neg' and A and A[0][0] == 'sym':
            return [(st, self.neg(st, A[0]))]
        if last.startswith('checked_'):
            return [(st.copy(), NONE), (st, some(TOP))]
        # ---- closures invoked directly
        if trait in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            args = A[1][1] if A[1][0] == 'tup' else [TOP]
            return self.call_closure(st, A[0], args, t)
        # ---- strings, chars, fmt: value unknown, no effect on parser state
        if self.pure_external(n, trait, last):
            if trait == 'std::ops::AddAssign::add_assign' or last in ('push', 'push_str', 'extend_from_slice', 'clear',
                                                                     'insert', 'insert_str', 'truncate'):
                loc = self.deref_loc(st, A[0])
                self.write_loc(st, loc, self.havoc_value(st, self.read_loc(st, loc), n))
                return [(st, UNIT)]
            return [(st, self.result_of_type(st, destty, ('ext', last)))]
        return None

    PURE_PREFIX = ('std::string::', 'core::str', 'std::str', 'std::char', 'core::char', 'std::fmt', 'core::fmt',
                   'std::path', 'num', 'core::num', 'std::num', 'core::panicking', 'std::ffi', 'console', 'std::rc',
                   'std::cmp', 'std::ops', 'std::cell', 'std::io::_eprint', 'std::borrow', 'std::sync', 'std::hash',
                   'std::collections', 'std::array', 'enum_iterator', 'std::process', 'std::env')

    def pure_external(self, n, trait, last):
        m = n
        if m.startswith('<'):
            m = m[1:].lstrip('&')
        return m.startswith(self.PURE_PREFIX) or trait.startswith(self.PURE_PREFIX)

    def result_of_type(self, st, ty, origin):
        t = self.P.ty(ty)
        if t is None:
            return TOP
        if t['k'] == 'tuple' and not t['fields']:
            return UNIT
        if t['k'] in ('adt',) and t.get('adt') == 'enum' and t['variants']:
            return self.new_sym(st, ty, origin)
        return TOP

    def cloned(self, st, v, trait):
        if trait.endswith('to_string') and v[0] not in ('s', 'sym'):
            return TOP
        return v

    def drop_value(self, st, v):
        pass

    def default(self, st, ty):
        t = self.P.ty(ty)
        if t is None:
            return TOP
        if t['k'] == 'bool' or t['k'] in ('int', 'uint'):
            return ('c', 0)
        if t.get('def') == OPT:
            return NONE
        if t.get('def') == 'std::vec::Vec':
            return ('vec', ())
        return TOP

    def neg(self, st, v):
        return self.new_sym(st, self.sym_ty(st, v), ('neg', self.desc(st, v)))

    def unop(self, st, op, v):
        return self.neg(st, v) if op == 'Neg' and v[0] == 'sym' else TOP

    def elem_of(self, st, loc, v, t):
        """the only element of a vector known by its origin"""
        a = t[2][0]
        ty = self.place_ty(st.frames[-1].fn, a[1]) if a[0] in ('cp', 'mv') else None
        tt = self.P.ty(ty)
        while tt and tt['k'] == 'ref':
            tt = self.P.ty(tt['inner'])
        if not tt or tt.get('def') != 'std::vec::Vec':
            return None
        if v[0] == 'sym':
            o = (st.syms[v[1]][2],)
        else:
            o = tuple(sorted(self.vorig(self.vec_origins(st, v)), key=str))
        return self.fresh(st, tt['targs'][0], ('elem', o))

    def into(self, st, v, destty, t):
        td = self.P.ty(destty)
        if td and td.get('def') == OPT:
            if (v[0] == 'adt' and v[1] == OPT):
                return v
            if v[0] == 'sym':
                sd = self.P.ty(self.sym_ty(st, v))
                if sd and sd.get('def') == OPT:
                    return v
            if v[0] == 'top':
                return self.result_of_type(st, destty, ('into',))
            return some(v)
        if td and td['k'] == 'adt' and td.get('local') and v[0] in ('adt', 'sym'):
            return v if self.value_def(st, v) == td['def'] else self.result_of_type(st, destty, ('into',))
        return v if v[0] in ('s', 'sym', 'c') else TOP

    def value_def(self, st, v):
        if v[0] == 'adt':
            return v[1]
        if v[0] == 'sym':
            return self.P.tdef(self.sym_ty(st, v))
        return None

    def try_branch(self, st, v, t):
        out = []
        d = self.value_def(st, v)
        destty = self.P.ty(t[5])
        isopt = d == OPT
        if d is None and destty:
            isopt = 'Option<std::convert::Infallible>' in destty['name'] or 'std::option::Option<!>' in destty['name']
        for s, k, fs in self.split(st, v, self.OPTN if isopt else self.RESN):
            if isopt:
                if k == 1:
                    out.append((s, ('adt', CF, 0, (fs[0],))))
                else:
                    out.append((s, ('adt', CF, 1, (NONE,))))
            else:
                if k == 0:
                    out.append((s, ('adt', CF, 0, (fs[0] if fs else TOP,))))
                else:
                    out.append((s, ('adt', CF, 1, (('adt', RES, 1, (fs[0] if fs else TOP,)),))))
        return out

    def do_eq(self, st, a, b, neg):
        out = []
        cs = self.compare(st, a, b)
        for i, (r, rf) in enumerate(cs):
            s = st if i == len(cs) - 1 else st.copy()
            try:
                for sid, bits in rf:
                    self.refine(s, sid, bits)
            except Infeasible:
                continue
            out.append((s, cbool(r != neg)))
        return out

    def do_ord(self, st, op, A):
        """ordering of unit-variant enums and constants"""
        if op not in ('lt', 'le', 'gt', 'ge'):
            return None
        a = self.deref(st, A[0])
        b = self.deref(st, A[1])
        f = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[op]

        def key(v):
            if v[0] == 'adt' and not v[3]:
                return v[2]
            if v[0] == 'c':
                return v[1]
            return None
        ka, kb = key(a), key(b)
        if ka is not None and kb is not None:
            return [(st, cbool(f(ka, kb)))]
        if a[0] == 'sym' and kb is not None and st.syms[a[1]][1] is not None and not a[2]:
            part = self.P.part(st.syms[a[1]][0], a[2])
            y = n = 0
            for k, m in part.items():
                if f(k, kb):
                    y |= m
                else:
                    n |= m
            out = []
            for val, m in ((1, y), (0, n)):
                if st.syms[a[1]][1] & m:
                    s = st.copy()
                    self.refine(s, a[1], m)
                    out.append((s, ('c', val)))
            return out
        return [(st.copy(), ('c', 1)), (st, ('c', 0))]

    # ------------------------------------------------------------ Option/Result methods
    def optres(self, st, n, last, A, t):
        isopt = n.startswith('std::option')
        N = self.OPTN if isopt else self.RESN
        good = 1 if isopt else 0
        mk = some if isopt else ok
        if last in ('is_some', 'is_none', 'is_ok', 'is_err'):
            v = self.deref(st, A[0])
            want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[last]
            return [(s, cbool(k == want)) for s, k, fs in self.split(st, v, N)]
        if last in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            loc = self.deref_loc(st, A[0])
            v = self.read_loc(st, loc)
            out = []
            for s, k, fs in self.split(st, v, N):
                if isopt and k == 0:
                    out.append((s, NONE))
                    continue
                if loc[0] == 'loc' and v[0] in ('adt', 'sym'):
                    r = ('ref', loc[1], loc[2] + (('V', k), ('F', 0)))
                    if last.startswith('as_deref'):
                        x = self.read_loc(s, ('loc', r[1], r[2]))
                        if x[0] == 'box':
                            r = ('ref', r[1], r[2] + (('B',),))
                else:
                    r = ('rv', fs[0] if fs else TOP)
                out.append((s, ('adt', OPT if isopt else RES, k, (r,))))
            return out
        if last == 'take':
            loc = self.deref_loc(st, A[0])
            v = self.read_loc(st, loc)
            self.write_loc(st, loc, NONE)
            return [(st, v)]
        if last in ('replace', 'insert', 'get_or_insert'):
            loc = self.deref_loc(st, A[0])
            v = self.read_loc(st, loc)
            self.write_loc(st, loc, some(A[1]))
            if last == 'replace':
                return [(st, v)]
            return [(st, TOP)]
        if last in ('unwrap', 'expect', 'unwrap_err', 'expect_err', 'unwrap_unchecked'):
            want = good if 'err' not in last else 1
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == want:
                    out.append((s, fs[0] if fs else TOP))
                else:
                    self.on_panic(s, last, t)
                    out.append(('dead', s))
            return out
        if last in ('unwrap_or_default', 'unwrap_or', 'unwrap_or_else'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == good:
                    out.append((s, fs[0]))
                elif last == 'unwrap_or':
                    out.append((s, A[1]))
                elif last == 'unwrap_or_default':
                    out.append((s, self.default_or_fresh(s, t[5])))
                else:
                    out += self.call_closure(s, A[1], [] if isopt else [fs[0]], t)
            return out
        if last in ('map', 'and_then', 'is_some_and', 'is_ok_and', 'map_or', 'map_or_else', 'filter', 'inspect', 'is_none_or'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == good:
                    f = A[-1]
                    x = fs[0]
                    if last == 'map':
                        out += self.call_closure(s, f, [x], t, ('Some' if isopt else 'Ok',))
                    elif last == 'filter':
                        s2 = s.copy()
                        out += [(s, NONE), (s2, some(x))]
                    elif last == 'inspect':
                        out.append((s, mk(x)))
                    else:
                        out += self.call_closure(s, f, [x], t)
                else:
                    if last in ('is_some_and', 'is_ok_and'):
                        out.append((s, cbool(False)))
                    elif last == 'is_none_or':
                        out.append((s, cbool(True)))
                    elif last == 'map_or':
                        out.append((s, A[1]))
                    elif last == 'map_or_else':
                        out += self.call_closure(s, A[1], [] if isopt else [fs[0]], t)
                    else:
                        out.append((s, NONE if isopt else err(fs[0] if fs else TOP)))
            return out
        if last in ('map_err', 'or_else'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == good:
                    out.append((s, mk(fs[0])))
                elif last == 'map_err':
                    out += self.call_closure(s, A[1], [fs[0]], t, ('Err',))
                else:
                    out += self.call_closure(s, A[1], [] if isopt else [fs[0]], t)
            return out
        if last in ('ok', 'err'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                w = 0 if last == 'ok' else 1
                out.append((s, some(fs[0]) if k == w else NONE))
            return out
        if last in ('ok_or', 'ok_or_else'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == 1:
                    out.append((s, ok(fs[0])))
                elif last == 'ok_or':
                    out.append((s, err(A[1])))
                else:
                    out += self.call_closure(s, A[1], [], t, ('Err',))
            return out
        if last in ('or',):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                out.append((s, mk(fs[0])) if k == good else (s, A[1]))
            return out
        if last in ('and',):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                out.append((s, A[1]) if k == good else (s, NONE if isopt else err(fs[0])))
            return out
        if last in ('cloned', 'copied'):
            out = []
            for s, k, fs in self.split(st, A[0], N):
                if k == good:
                    out.append((s, mk(self.deref(s, fs[0]))))
                else:
                    out.append((s, NONE if isopt else err(fs[0])))
            return out
        if last == 'flatten':
            out = []
            for s, k, fs in self.split(st, A[0], N):
                out.append((s, fs[0]) if k == good else (s, NONE if isopt else err(fs[0])))
            return out
        if last == 'iter':
            return [(st, ('iter', 'opaque', TOP))]
        return None

    def default_or_fresh(self, st, ty):
        return self.default(st, ty)

    def on_panic(self, st, kind, t):
        st.ev.append(('panic?' if st.gs else 'panic', kind, st.frames[-1].fn['path']))

    # ------------------------------------------------------------ Vec methods
    def vecops(self, st, n, last, A, t):
        if last in ('new', 'with_capacity') and n.startswith('std::vec::Vec'):
            return [(st, ('vec', ()))]
        if not A:
            return None
        if last == 'deref' or last == 'deref_mut':
            return None
        loc = self.deref_loc(st, A[0])
        v = self.read_loc(st, loc)

        def ref(*steps):
            if loc[0] == 'loc':
                return ('ref', loc[1], loc[2] + steps)
            return ('rv', self.walk(st, loc[1], steps))
        if last == 'push':
            if v[0] in ('vec', 'vecm', 'stk'):
                if v[0] != 'stk' and loc[0] == 'loc' and loc[2]:
                    # vectors inside structures only remember whether they are empty
                    o = self.vec_origins(st, v)
                    self.origins_of(st, A[1], o)
                    self.write_loc(st, loc, ('vecm', 1, self.vorig(o)))
                else:
                    self.write_loc(st, loc, self.vec_push(st, v, A[1]))
            return [(st, UNIT)]
        if last in ('pop',):
            if v[0] == 'stk':
                if v[1]:
                    self.write_loc(st, loc, ('stk', v[1][:-1]))
                    return [(st, some(v[1][-1]))]
                st.ev.append(('underflow', self.loc_name(st, loc)))
                return [(st, self.some_fresh(st, t[5], ('outer',)))]
            if v[0] == 'vec':
                if v[1]:
                    self.write_loc(st, loc, ('vec', v[1][:-1]))
                    return [(st, some(v[1][-1]))]
                st.gs = 0
                return [(st, NONE)]
            s2 = st.copy()
            if loc[0] == 'loc':
                self.write_loc(s2, loc, ('vec', ()))
            st.ev.append(('iter', ''))
            if v[0] == 'vecm' and v[1] > 0:
                return [(st, self.some_fresh(st, t[5], ('elem',)))]
            s2.gs = 0 if v[0] == 'vecm' else 1
            return [(s2, NONE), (st, self.some_fresh(st, t[5], ('elem',)))]
        if last in ('remove', 'swap_remove'):
            if v[0] == 'vec' and A[1][0] == 'c' and A[1][1] < len(v[1]):
                x = v[1][A[1][1]]
                self.write_loc(st, loc, ('vec', v[1][:A[1][1]] + v[1][A[1][1] + 1:]))
                return [(st, x)]
            r = self.fresh(st, t[5], ('elem', tuple(sorted(self.vorig(self.vec_origins(st, v)), key=str))))
            if v[0] == 'vec':
                self.write_loc(st, loc, ('vecm', 0, self.vorig(self.vec_origins(st, v))))
            elif v[0] == 'vecm':
                self.write_loc(st, loc, ('vecm', max(0, v[1] - 1), v[2]))
            return [(st, r)]
        if last in ('last', 'last_mut', 'first', 'first_mut'):
            if v[0] == 'stk':
                if v[1] and last.startswith('last'):
                    return [(st, some(ref(('E', -1))))]
                return [(st, self.some_fresh(st, t[5], ('outer',)))]
            if v[0] == 'vec':
                if not v[1]:
                    st.gs = 0
                    return [(st, NONE)]
                return [(st, some(ref(('E', -1 if last.startswith('last') else 0))))]
            if v[0] == 'vecm' and v[1] > 0:
                return [(st, self.some_fresh(st, t[5], ('elem',)))]
            s2 = st.copy()
            s2.gs = 0 if v[0] == 'vecm' else 1
            return [(s2, NONE), (st, self.some_fresh(st, t[5], ('elem',)))]
        if last in ('len',):
            lo, hi = self.vec_len(v)
            if v[0] in ('vec',) and lo == hi:
                return [(st, ('c', lo))]
            if loc[0] == 'loc' and (v[0] == 'vecm' or v[0] == 'sym' and not v[2]) and self.has_content(st, v):
                out = []
                if lo == 0:
                    s2 = st.copy()
                    self.write_loc(s2, loc, ('vec', ()))
                    out.append((s2, ('c', 0)))
                if lo <= 1:
                    s2 = st.copy()
                    e = self.elem_of(s2, loc, v, t)
                    if e is None:
                        return [(st, TOP)]
                    self.write_loc(s2, loc, ('vec', (e,)))
                    out.append((s2, ('c', 1)))
                if v[0] == 'vecm':
                    self.write_loc(st, loc, ('vecm', 2, v[2]))
                out.append((st, ('prim', 'ge', 2)))
                return out
            return [(st, TOP)]
        if last == 'is_empty':
            lo, hi = self.vec_len(v)
            if v[0] == 'vec':
                return [(st, cbool(lo == 0))]
            if v[0] == 'stk' or lo > 0:
                return [(st, cbool(False))]
            s2 = st.copy()
            if loc[0] == 'loc' and v[0] in ('sym', 'vecm'):
                self.write_loc(s2, loc, ('vec', ()))
                if v[0] == 'vecm':
                    self.write_loc(st, loc, ('vecm', 1, v[2]))
            return [(s2, cbool(True)), (st, cbool(False))]
        if last in ('iter', 'iter_mut'):
            return [(st, self.mk_iter(st, A[0], last))]
        if last in ('index', 'index_mut'):
            i = A[1]
            if v[0] == 'vec' and i[0] == 'c' and i[1] < len(v[1]):
                return [(st, ref(('E', i[1])))]
            if i[0] == 'c' and (v[0] == 'vec' or v[0] == 'vecm' and v[1] <= i[1]):
                st.ev.append(('panic?', 'index', st.frames[-1].fn['path']))
            if v[0] in ('vec', 'vecm', 'sym'):
                tt = self.P.ty(t[5])
                return [(st, ('rv', self.fresh(st, tt['inner'], ('elem',)) if tt and tt['k'] == 'ref' else TOP))]
            return [(st, ('rv', TOP))]
        if last == 'get' or last == 'get_mut':
            if v[0] in ('vec', 'vecm', 'stk', 'sym'):
                return [(st.copy(), NONE), (st, self.some_fresh(st, t[5], ('elem',)))]
            return [(st.copy(), NONE), (st, some(('rv', TOP)))]
        if last in ('extend_from_slice', 'extend', 'append', 'insert', 'truncate', 'clear', 'resize', 'retain', 'drain', 'reverse', 'dedup', 'sort', 'swap',
                    'rotate_left', 'rotate_right', 'dedup_by_key', 'sort_by', 'sort_by_key', 'sort_unstable'):
            if v[0] in ('vec', 'vecm'):
                o = self.vec_origins(st, v)
                for a in A[1:]:
                    self.origins_of(st, self.deref(st, a), o)
                if last not in ('extend_from_slice', 'extend', 'append', 'truncate', 'clear', 'drain') and o:
                    o.add(('reordered',))
                self.write_loc(st, loc, ('vecm', 0, self.vorig(o)))
            elif v[0] == 'stk' and last in ('truncate', 'clear', 'drain', 'retain', 'append', 'extend', 'insert'):
                st.ev.append(('stack-op', last, self.loc_name(st, loc)))
            return [(st, UNIT if last != 'drain' else TOP)]
        if last in ('contains', 'starts_with', 'ends_with'):
            return [(st.copy(), cbool(True)), (st, cbool(False))]
        return None

    def loc_name(self, st, loc):
        return ''

    def some_fresh(self, st, ty, origin):
        """Some(unknown) for a destination of type Option<..>"""
        t = self.P.ty(ty)
        if t and t.get('def') == OPT:
            return some(self.fresh(st, t['variants'][1]['fields'][0]['t'], origin))
        return some(TOP)

    # ------------------------------------------------------------ iterators
    def mk_iter(self, st, v, how):
        loc = self.deref_loc(st, v) if v[0] in ('ref', 'rv') else ('val', v)
        x = self.read_loc(st, loc)
        if x[0] == 'iter':
            return x
        if x[0] in ('stk', 'vec') and loc[0] == 'loc':
            return ('iter', 'at', ('ref', loc[1], loc[2]), 0, 0)
        if x[0] == 'vec':
            if v[0] == 'rv':
                x = ('vec', tuple(('rv', e) for e in x[1]))
            return ('iter', 'own', x, 0, 0)
        return ('iter', 'opaque', x)

    SEARCH = ('all', 'any', 'position', 'find', 'find_map', 'for_each')

    def iter_search(self, st, last, A, t):
        """one round of a method that calls a closure with the items one by one; None: not modelled"""
        depth = len(st.frames)
        if A[0][0] == 'iter':
            # by value
            st.heap['$iter%d' % depth] = A[0]
            A = [('ref', ('H', '$iter%d' % depth), ())] + A[1:]
        loc = self.deref_loc(st, A[0])
        it = self.read_loc(st, loc) if loc[0] == 'loc' else TOP
        clo = self.deref(st, A[1]) if A[1][0] in ('ref', 'rv') else A[1]
        if it[0] != 'iter' or it[1] not in ('at', 'own') or clo[0] != 'clo' or clo[1] not in self.P.fns:
            return None
        fn = self.P.fns[clo[1]]
        if fn['argc'] != 2:
            return None
        f = st.frames[-1]
        f.fn['joins'][f.bb] = True
        ity = fn['locals'][2]
        if last == 'find':
            ity = (self.P.ty(ity) or {}).get('inner', -1)
        out = []
        END = {'all': ('c', 1), 'any': ('c', 0), 'for_each': UNIT}
        for s, v in self.iter_next(st, loc, it, t, ity):
            if v[2] == 0:
                self.search_done(s, depth)
                out.append((s, END.get(last, NONE)))
                continue
            x = v[3][0]
            n = s.heap.get('$n%d' % depth, ('c', 0))
            s.heap['$again%d' % depth] = ('again', last, tuple(A))
            s.heap['$item%d' % depth] = x if last == 'find' else n
            s.heap['$n%d' % depth] = ('c', min(n[1] + 1, 4)) if last == 'position' else n
            out.extend(self.call_closure(s, A[1], [('ref', ('H', '$item%d' % depth), ()) if last == 'find' else x], t, ('search', last)))
        return out

    def search_done(self, st, depth):
        for k in ('again', 'item', 'iter', 'n'):
            st.heap.pop('$%s%d' % (k, depth), None)

    def search_result(self, st, last, v):
        """the closure has returned v -> [(state, result of the method, None: go on)]"""
        depth = len(st.frames)
        out = []
        if last == 'for_each':
            return [(st, None)]
        if last == 'find_map':
            for s, k, fs in self.split(st, v, self.OPTN):
                if k:
                    self.search_done(s, depth)
                out.append((s, some(fs[0]) if k else None))
            return out
        for s, b in self.truth(st, v):
            if b == (last != 'all'):
                x = s.heap.get('$item%d' % depth)
                self.search_done(s, depth)
                out.append((s, cbool(last == 'any') if last in ('all', 'any') else
                            some(x if last == 'find' or x[1] < 4 else TOP)))
            else:
                out.append((s, None))
        return out

    def iterops(self, st, last, A, t):
        if last in self.SEARCH and len(A) == 2:
            r = self.iter_search(st, last, A, t)
            if r is not None:
                return r
        if last == 'next':
            loc = self.deref_loc(st, A[0])
            it = self.read_loc(st, loc)
            return self.iter_next(st, loc, it, t)
        it = A[0] if A else TOP
        if it[0] in ('ref', 'rv'):
            it = self.deref(st, it)
        if last == 'rev':
            if it[0] == 'iter' and it[1] in ('at', 'own'):
                return [(st, it[:4] + (1 - it[4],))]
            return [(st, it if it[0] == 'iter' else ('iter', 'opaque', TOP))]
        if last == 'skip':
            if it[0] == 'iter' and it[1] == 'at' and A[1][0] == 'c':
                return [(st, it[:3] + (it[3] + A[1][1], it[4]))]
            return [(st, ('iter', 'opaque', TOP))]
        if last in ('map', 'filter', 'filter_map', 'enumerate', 'take_while', 'skip_while', 'zip', 'chain', 'take',
                    'cloned', 'copied', 'peekable', 'by_ref', 'flat_map', 'inspect', 'step_by'):
            return [(st, ('iter', 'opaque', TOP))]
        if last in ('all', 'any'):
            return [(st.copy(), cbool(True)), (st, cbool(False))]
        if last in ('position', 'find', 'find_map', 'last', 'nth', 'max', 'min', 'rposition'):
            return [(st.copy(), NONE), (st, self.some_fresh(st, t[5], ('elem',)))]
        if last == 'collect':
            tt = self.P.ty(t[5])
            if tt and tt.get('def') == 'std::vec::Vec':
                return [(st, ('vecm', 0, frozenset()))]
            return [(st, self.result_of_type(st, t[5], ('ext', 'collect')))]
        if last in ('fold', 'count', 'sum', 'for_each', 'len', 'extend', 'size_hint'):
            return [(st, TOP if last != 'for_each' else UNIT)]
        return None

    def iter_next(self, st, loc, it, t, ity=None):
        r = self.iter_next0(st, loc, it, t, ity)
        info = t[1][1] if t[1][0] == 'const' else {}
        endless = ENDLESS.search(str(info.get('res', '')))
        for s, v in r:
            if v[0] == 'adt' and v[2] == 1:
                s.ev.append(('iter', 'endless' if endless else ''))
        return r

    def iter_next0(self, st, loc, it, t, ity=None):
        if it[0] == 'iter' and it[1] in ('at', 'own'):
            _, kind, src, idx, rev = it
            if kind == 'at':
                x = self.read_loc(st, ('loc', src[1], src[2]))
            else:
                x = src
            if x[0] == 'vec':
                if idx >= len(x[1]):
                    return [(st, NONE)]
                pos = -1 - idx if rev else idx
                self.write_loc(st, loc, it[:3] + (idx + 1, rev))
                if kind == 'at':
                    return [(st, some(('ref', src[1], src[2] + (('E', pos),))))]
                return [(st, some(x[1][pos]))]
            if x[0] == 'stk':
                if rev and 0 <= idx < len(x[1]):
                    self.write_loc(st, loc, it[:3] + (idx + 1, rev))
                    return [(st, some(('ref', src[1], src[2] + (('E', -1 - idx),))))]
                first = idx >= 0
                org = ('outer',) if rev else ('outermost',)
                self.write_loc(st, loc, it[:3] + (-1, rev))
                if first:
                    # the unknown prefix is non-empty
                    if idx <= len(x[1]):
                        return [(st, self.some_item(st, t, ity, org))]
                s2 = st.copy()
                s2.ev.append(('stk-end',))
                s2.gs = 1
                return [(s2, NONE), (st, self.some_item(st, t, ity, org))]
        if it[0] == 'iter' and it[1] == 'opaque' and it[2][0] == 'vecm' and it[2][1] > 0 and loc[0] == 'loc':
            self.write_loc(st, loc, ('iter', 'opaque', ('vecm', it[2][1] - 1, it[2][2])))
            return [(st, self.some_item(st, t, ity, ('elem',)))]
        s2 = st.copy()
        s2.gs = 1
        return [(s2, NONE), (st, self.some_item(st, t, ity, ('elem',)))]

    def some_item(self, st, t, ity, org):
        return self.some_fresh(st, t[5], org) if ity is None else some(self.fresh(st, ity, org))
