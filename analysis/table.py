"""Abstract interpretation of the operations on the table of local variables.

The table is an opaque sequence: pushes are counted, a search forks into found / not found. Exits: (returned value,
{field: value assigned}, pushes)."""
import core
from core import State, Frame, some, NONE, UNIT, TOP, cbool
from models import Models, norm
from prog import short

OPT = 'std::option::Option'


class TableEngine(Models):
    MAXSTATES = 2000

    def run_fn(self, path):
        P = self.P
        fn = P.fns[path]
        self.root = path
        st = State.__new__(State)
        st.gs = 0
        st.frames, st.heap, st.syms, st.nid, st.ev, st.g = [], {}, {}, 0, [], None
        locs = {}
        self.fields = None
        for i in range(fn['argc']):
            ty = fn['locals'][i + 1]
            t = P.ty(ty)
            if t and t['k'] == 'ref' and (P.tdef(t['inner']) or '').startswith('lvar_collector::'):
                st.heap['self'] = self.model(st, t['inner'])
                locs[i + 1] = ('ref', ('H', 'self'), ())
            elif t and t['k'] == 'ref':
                locs[i + 1] = ('rv', ('prim', 'arg', i))
            else:
                locs[i + 1] = ('prim', 'arg', i)
        st.frames.append(Frame(fn, 0, locs, None, -1))
        P.prepare(fn)
        return self.explore(st)

    def model(self, st, ty):
        P = self.P
        d = P.tdef(ty)
        fs = []
        names = []
        for f in P.types[ty]['variants'][0]['fields']:
            names.append(f['n'])
            t = P.ty(f['t'])
            if (t or {}).get('def') == 'std::vec::Vec' and (P.ty(t['targs'][0]) or {}).get('def') == 'std::string::String':
                fs.append(('prim', 'tbl', 0))
            elif (P.tdef(f['t']) or '').endswith('LvarTable'):
                fs.append(self.model(st, f['t']))
            else:
                fs.append(('prim', 'old', f['n']))
        if d.endswith('LvarCollector'):
            self.fields = names
        return ('adt', d, 0, tuple(fs))

    def exit_desc(self, st):
        ret = st.heap.pop('$ret', UNIT)
        me = st.heap.get('self')
        ch = []
        if me and self.fields:
            for n, v in zip(self.fields, me[3]):
                if v != ('prim', 'old', n) and n != 'table':
                    ch.append((n, self.show(st, v)))
        return ('exit', self.show(st, ret), tuple(ch))

    def show(self, st, v):
        t = v[0]
        if t in ('ref', 'rv'):
            return self.show(st, self.deref1(st, v))
        if t == 'prim':
            return ':'.join(str(x) for x in v[1:])
        if t == 'adt' and v[1] == OPT:
            return 'Some(%s)' % self.show(st, v[3][0]) if v[2] else 'None'
        if t == 'adt' and len(v[3]) == 1:
            return self.show(st, v[3][0])
        if t == 'c':
            return str(v[1])
        if t == 's':
            return repr(v[1])
        if t == 'tup' and not v[1]:
            return '()'
        return '?'

    def is_tbl(self, st, v):
        x = self.deref(st, v)
        if x[0] == 'adt' and x[1].endswith('LvarTable'):
            x = x[3][0]
        return x if x[0] == 'prim' and x[1] in ('tbl', 'tbliter') else None

    def found(self, st, arg, yes, no):
        k = '$has' + arg
        if arg != '?' and k in st.heap:
            return [(st, yes if st.heap[k][1] else no)]      # searched before
        s2 = st.copy()
        st.heap[k] = ('c', 1)
        s2.heap[k] = ('c', 0)
        return self.found1(st, s2, arg, yes, no)

    def found1(self, st, s2, arg, yes, no):
        st.ev.append(('has', arg, 1))
        s2.ev.append(('has', arg, 0))
        return [(st, yes), (s2, no)]

    def call(self, st, name, info, argv, t):
        fn = self.P.fns.get(name)
        if fn is not None and short(name) == 'get_lvarid':
            if argv and self.is_tbl(st, argv[0]):
                ty = self.P.ty(t[5])
                inner = self.P.tdef(ty['variants'][1]['fields'][0]['t'])
                return self.found(st, self.show(st, argv[1]), some(('adt', inner, 0, (('prim', 'found'),))), NONE)
        if fn is None or fn.get('derived'):
            r = self.external(st, name, info, argv, t)
            if r is not None:
                return r
            st.ev.append(('unknown', name))
            return [(st, TOP)]
        if any(f.fn['path'] == name for f in st.frames):
            st.ev.append(('unknown', name))
            return [(st, TOP)]
        return [self.push_call(st, fn, argv, ('place', t[3]), t[4])]

    def external(self, st, name, info, argv, t):
        n = norm(name)
        last = n.rsplit('::', 1)[-1]
        x = self.is_tbl(st, argv[0]) if argv else None
        if x and x[1] == 'tbl':
            loc = self.deref_loc(st, argv[0])
            if last == 'push':
                st.ev.append(('push', self.show(st, argv[1])))
                self.write_loc(st, loc, ('prim', 'tbl', x[2] + 1))
                st.heap['$has' + self.show(st, argv[1])] = ('c', 1)
                return [(st, UNIT)]
            if last == 'len':
                return [(st, ('prim', 'len', x[2]))]
            if last in ('deref', 'as_slice', 'as_ref', 'deref_mut'):
                return [(st, argv[0])]
            if last in ('iter', 'into_iter'):
                return [(st, ('prim', 'tbliter', 0))]
            if last == 'contains':
                return self.found(st, self.show(st, argv[1]), cbool(True), cbool(False))
            if n.startswith('std::vec') or n.startswith('core::slice') or n.startswith('std::slice'):
                st.ev.append(('change', last))
                return [(st, TOP)]
        if last in ('to_string', 'clone', 'to_owned', 'into', 'from', 'as_str', 'deref', 'as_ref', 'borrow', 'into_boxed_str') and argv:
            v = self.deref(st, argv[0])
            ty = self.P.ty(t[5])
            if v[0] == 'prim' and v[1] in ('arg', 'found', 'idx', 'len'):
                return [(st, v if last not in ('as_str', 'deref', 'as_ref', 'borrow') else ('rv', v))]
        return super().external(st, name, info, argv, t)

    def binop(self, st, op, a, b, r):
        if a[0] == 'prim' and a[1] == 'len' and b == ('c', 1) and op.startswith('Sub'):
            v = ('prim', 'idx', a[2] - 1)
            return ('tup', (v, ('c', 0))) if op.endswith('WithOverflow') else v
        return super().binop(st, op, a, b, r)
