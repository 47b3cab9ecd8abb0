"""P20: what a tag finds is what it holds, after any edit or copy."""
import os
import re
import z3
from cxxvc.cast import Unsupported
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc import engine as E
from cxxvc.spec import positions, prove

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P20v%d.cc')
I = z3.IntSort()
B32 = z3.BitVecSort(32)
S = 'scribbu::'
# tables of frames of one kind: member, class
KINDS = {2: [('coms_', 'COM'), ('cnts_', 'CNT'), ('pops_', 'POP'), ('text_map_', 'id3v2_2_text_frame')],
         3: [('comms_', 'COMM'), ('pcnts_', 'PCNT'), ('popms_', 'POPM'), ('text_map_', 'id3v2_3_text_frame')],
         4: [('comms_', 'COMM_2_4'), ('pcnts_', 'PCNT_2_4'), ('popms_', 'POPM_2_4'), ('text_map_', 'id3v2_4_text_frame')]}
CLS, ID, WHAT = z3.Function('class_of', I, I), z3.Function('identifier', I, B32), z3.Function('contents', I, I)
CODES = {}


def code(name):
    """number of a frame class"""
    return z3.IntVal(CODES.setdefault(name.replace(S, ''), len(CODES) + 1))


FIXED = {'COM': 'COM', 'COMM': 'COMM', 'COMM_2_4': 'COMM', 'TXX': 'TXX', 'TXXX': 'TXXX', 'TXXX_2_4': 'TXXX', 'CNT': 'CNT', 'PCNT': 'PCNT', 'PCNT_2_4': 'PCNT',
         'POP': 'POP', 'POPM': 'POPM', 'POPM_2_4': 'POPM', 'PRIV': 'PRIV', 'PRIV_2_4': 'PRIV'}


class Table(Tup):
    """entries in the order they were made: a (frame or identifier), b (position, or frame)"""


def table(eng, name, n=None, key=False, ghost=None):
    """arbitrary entries"""
    n = z3.IntVal(0) if n is None else n
    fa, fb = z3.Function(fresh_name(name + '_a'), I, B32 if key else I), z3.Function(fresh_name(name + '_b'), I, I)
    return Table('table', {'a': Seq(lambda j: fa(j), n, 32 if key else 'int', 'vector'), 'b': Seq(lambda j: fb(j), n, 'int', 'vector')})


class Fill:
    """invariants: the tables hold the frames visited so far"""

    def __init__(self, c):
        self.c = c

    def setup(self, eng, inst, entry, head, modified):
        c = self.c
        inst.phases = [[]]
        inst.extra_T = []

        def add(name, f, ar=0):
            x = (name, f, ar)
            inst.cands.append(x)
            inst.phases[0].append(x)
        vs = [v for v in positions(head, modified) if v.mod and not re.search(r'_\.[ab]\.size$', v.name)]
        for v in vs:
            add('%s >= 0' % v.name, lambda st, v=v: v.fn(st) >= 0)
            add('%s <= n' % v.name, lambda st, v=v: v.fn(st) <= c.n)
            inst.measures.append(('n - %s' % v.name, lambda st, v=v: c.n - v.fn(st)))
            inst.extra_T += [v.fn(head), v.fn(head) + 1]
            for u in vs:
                if u is not v:
                    add('%s is %s' % (u.name, v.name), lambda st, u=u, v=v: u.fn(st) == v.fn(st))
            c.more(eng, entry, head, v, add)


class Base(Contract):
    """Frames are known by numbers; class_of, identifier and contents say which class, identifier and contents a frame has.
    A table is the list of its entries in the order they were made."""
    mode = 'int'

    def tag(self, eng, st, name, agrees=True):
        """an arbitrary tag"""
        v = self.ver
        n = z3.Int(name + '_frames')
        H = z3.Function(name + '_frame', I, I)
        st.assume(z3.And(n >= 0, n < (1 << 40)))
        fr = Seq(lambda j: H(j), n, 'int', 'vector')
        o = eng.any_struct(st, eng.record(S + 'id3v2_%d_tag' % v), name)
        o = o.set('frames_', fr)
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(H(j) > 0, H(j) < (1 << 40))), name + ': frames'))
        st.add_T(n)
        for t in self.tables():
            # frames_map and text_map: identifier -> position or frame; the others: frame -> position
            o = o.set(t, table(eng, name + '_' + t, z3.Int(fresh_name(name + '_' + t + '_len')), t.endswith('_map_')))
        F = {k: z3.Function('%s_%s_before' % (name, k), I, I) for k, c in KINDS[v]}
        if agrees:
            for _, g in self.agree(eng, st, o, fr, F, n, define=True):
                st.assume(g)
        return o, fr, F

    def tables(self):
        return [k for k, c in KINDS[self.ver]] + ['frame_map_']

    def count_def(self, st, fr, F, lo, hi):
        """F[k](i): number of frames of the kind among the first i"""
        for k, cl in KINDS[self.ver]:
            f, cl = F[k], code(cl)
            st.assume(f(0) == 0)
            st.assume(FA(lambda i, f=f, cl=cl: z3.Implies(z3.And(i >= lo, i < hi), f(i + 1) == f(i) + z3.If(CLS(fr.get(self.A, i)) == cl, 1, 0)), 'count'))
            st.assume(FA(lambda i, f=f: z3.Implies(i >= 0, f(i) >= 0), 'count'))

    def entry(self, k, t, fr, F, j):
        """the entry of frame j in the table"""
        A, h = self.A, fr.get(self.A, j)
        if k == 'frame_map_':
            return z3.And(t.f['a'].get(A, j) == self.ident(h), t.f['b'].get(A, j) == j)
        p = F[k](j)
        if k == 'text_map_':
            return z3.And(t.f['a'].get(A, p) == self.ident(h), t.f['b'].get(A, p) == h)
        return z3.And(t.f['a'].get(A, p) == h, t.f['b'].get(A, p) == j)

    def agree(self, eng, st, o, fr, F, n, define=False):
        """the tables are those of the first n frames"""
        self.A = eng.A
        if define:
            self.count_def(st, fr, F, 0, n)
        R = []
        for k in self.tables():
            t = o.f[k]
            if k == 'frame_map_':
                R.append(('%s: one entry for each frame' % k, z3.And(t.f['a'].len == n, t.f['b'].len == n)))
                R.append(('%s: identifier and position of each frame' % k, FA(lambda j, t=t, k=k: z3.Implies(z3.And(j >= 0, j < n), self.entry(k, t, fr, F, j)), k)))
            else:
                cl = code(dict(KINDS[self.ver])[k])
                R.append(('%s: one entry for each frame of its kind' % k, z3.And(t.f['a'].len == F[k](n), t.f['b'].len == F[k](n))))
                R.append(('%s: each frame of its kind, with its place' % k,
                          FA(lambda j, t=t, k=k, cl=cl: z3.Implies(z3.And(j >= 0, j < n, CLS(fr.get(self.A, j)) == cl),
                                                                  z3.And(F[k](j) >= 0, F[k](j) < t.f['a'].len, self.entry(k, t, fr, F, j))), k)))
        return R

    def ident(self, h):
        return ID(h) & 0xffffff if self.ver == 2 else ID(h)

    # ---------------------------------------------------------------- library calls on frames and tables
    def install(self, eng, st):
        self.A, self.eng = eng.A, eng
        mo, am = eng.model_overrides, eng.abstract_methods
        mo['get'] = self.m_get
        mo['clear'] = self.m_clear
        mo['push_back'] = mo['emplace_back'] = self.m_push
        mo['insert'] = self.m_insert
        mo['emplace'] = self.m_emplace
        mo['dynamic_cast'] = self.m_dynamic
        mo['erase'] = self.m_erase
        mo['swap'] = self.m_swap
        mo['operator='] = self.m_assign
        mo['new'] = self.m_new
        mo['construct:smartptr'] = self.m_own
        for k in ('vector', 'map', 'other', 'unordered_map', 'None'):
            mo['construct:' + k] = self.m_empty_container
        am['make_unique'] = self.f_make
        am[S + 'id3v2_%d_tag::index_frames' % self.ver] = self.f_index
        v = self.ver
        for c in (S + 'id3v2_%d_frame::' % v, S + 'id3v2_frame::', S + 'id3v2_3_plus_frame::', S + 'id3v2_%d_text_frame::' % v):
            am[c + 'id'] = self.f_id
            am[c + 'clone'] = self.f_clone
        mo['find'] = self.m_find
        mo['end'] = self.m_end
        mo['count'] = self.m_count
        mo['operator()'] = self.m_parser
        mo['size'] = self.m_size
        mo['begin'] = self.m_begin
        for _, c in KINDS[self.ver]:
            am[S + c + '::' + c] = self.f_copy
        am['transform'] = self.f_transform
        mo['empty'] = self.m_empty
        mo['operator*'] = mo['operator->'] = self.m_deref

    def handle(self, eng, st, v):
        """number of the frame a value, reference or pointer stands for"""
        v = eng.rv(st, v)
        if isinstance(v, Ptr):
            if v.lv is None:
                return z3.IntVal(0)
            v = eng.load(st, v.lv)
        if z3.is_expr(v) and v.sort() == I:
            return v
        raise Unsupported('not a frame: %r' % (v,))

    def ref(self, st, h):
        st.add_T(h)
        return Ptr(st.alloc(h, 'frame'), z3.IntVal(0), True)

    def is_frames(self, v):
        return isinstance(v, Seq) and v.ew == 'int'

    def m_get(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if z3.is_expr(v) and v.sort() == I:
            return [(st, self.ref(st, v))]
        return None

    def m_clear(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if isinstance(t, Table):
            z = z3.IntVal(0)
            eng.storev(st, lv, Table('table', {k: s.with_len(z) for k, s in t.f.items()}))
            return [(st, None)]
        return None

    def append(self, eng, st, lv, a, b):
        t = eng.load(st, lv)
        A = eng.A
        st.add_T(t.f['a'].len)
        one = lambda s, x: seq_concat(A, s, Seq(lambda j: x, z3.IntVal(1), s.ew, 'vector'))
        eng.storev(st, lv, Table('table', {'a': one(t.f['a'], a), 'b': one(t.f['b'], b)}))

    def key(self, eng, st, v):
        """a frame identifier as a word"""
        v = eng.rv(st, v)
        if not (isinstance(v, Struct) and 'id_' in v.f):
            raise Unsupported('not an identifier: %r' % (v,))
        n = 3 if self.ver == 2 else 4
        bs = [v.f['id_'].get(eng.A, z3.IntVal(i)) for i in range(n)]
        return z3.simplify(z3.Concat(*([z3.BitVecVal(0, 8)] * (4 - n) + bs)))

    def m_push(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if isinstance(t, Table):
            p = eng.rv(st, vs[0])
            self.append(eng, st, lv, self.handle(eng, st, p.f['0']), eng.rv(st, p.f['1']))
            return [(st, None)]
        if self.is_frames(t):
            h = self.handle(eng, st, vs[0])
            self.moved(eng, st, vs[0])
            st.add_T(t.len)
            eng.storev(st, lv, seq_concat(eng.A, t, Seq(lambda j: h, z3.IntVal(1), 'int', 'vector')))
            return [(st, None)]
        return None

    def moved(self, eng, st, v):
        if isinstance(v, LV):
            eng.storev(st, v, Ptr(None, z3.IntVal(0), True))

    def m_insert(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if isinstance(t, Table) and len(vs) == 1:
            p = eng.rv(st, vs[0])
            b = p.f['1']
            b = self.handle(eng, st, b)
            self.append(eng, st, lv, self.key(eng, st, p.f['0']), b)
            return [(st, Opaque('inserted'))]
        return None

    def m_emplace(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if not self.is_frames(t) or len(vs) != 2:
            return None
        p = eng.rv(st, vs[0])
        h = self.handle(eng, st, vs[1])
        self.moved(eng, st, vs[1])
        k = p.off
        eng.oblige(st, 'a position of the list', z3.And(k >= 0, k <= t.len), n)
        st.add_T(k)
        A = eng.A
        eng.storev(st, lv, Seq(lambda j: z3.If(j < k, t.get(A, j), z3.If(j == k, h, t.get(A, j - 1))), z3.simplify(t.len + 1), 'int', 'vector'))
        return [(st, Ptr(lv, k))]

    def m_erase(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if not self.is_frames(t):
            return None
        A, a = eng.A, eng.rv(st, vs[0]).off
        b = eng.rv(st, vs[1]).off if len(vs) > 1 else z3.simplify(a + 1)
        eng.oblige(st, 'positions of the list', z3.And(a >= 0, a <= b, b <= t.len), n)
        st.add_T(a)
        st.add_T(b)
        eng.storev(st, lv, Seq(lambda j: z3.If(j < a, t.get(A, j), t.get(A, j + b - a)), z3.simplify(t.len - b + a), 'int', 'vector'))
        return [(st, Ptr(lv, a))]

    def put(self, eng, st, lv, h):
        """a smart pointer now owns frame h"""
        if z3.is_expr(eng.load(st, lv)):
            eng.storev(st, lv, h)
        else:
            eng.storev(st, lv, self.ref(st, h))

    def m_swap(self, eng, st, lv, name, vs, n, args):
        a, b = self.handle(eng, st, lv), self.handle(eng, st, vs[0])
        self.put(eng, st, lv, b)
        self.put(eng, st, vs[0], a)
        return [(st, None)]

    def m_assign(self, eng, st, a, name, vs, n, args):
        v = eng.rv(st, a)
        if isinstance(v, Opaque) and isinstance(eng.rv(st, vs[1]), Opaque) and isinstance(a, LV) and a.path:
            eng.storev(st, a, eng.rv(st, vs[1]))
            return [(st, a)]
        if not (z3.is_expr(v) and v.sort() == I) or 'ptr' not in eng.ctype(args[0]):
            return None
        eng.storev(st, a, self.handle(eng, st, vs[1]))
        self.moved(eng, st, vs[1])
        return [(st, a)]

    def frame_class(self, t):
        """the frame class a (smart) pointer type points to"""
        m = re.match(r'^(?:std::)?(?:unique_ptr|shared_ptr)<\s*([\w:]+)', t)
        return (m.group(1) if m else t.replace('*', '').replace('const ', '').strip()).replace(S, '')

    def is_frame_class(self, c):
        return self.eng.record(S + c) is not None and (c in [x for _, x in KINDS[self.ver]] or re.search(r'frame$|^[A-Z]{3,4}(_2_4)?$', c))

    def m_own(self, eng, n, t, st, args):
        """a smart pointer made from a pointer, or moved from another, which then owns nothing"""
        if not self.is_frame_class(self.frame_class(t)):
            return None
        return self.own(eng, st, args)

    def m_empty_container(self, eng, n, t, st, args):
        if args:
            return None
        if re.match(r'^(std::)?vector<\s*(std::)?unique_ptr<', t):
            return [(st, Seq(lambda j: z3.IntVal(0), z3.IntVal(0), 'int', 'vector'))]
        m = re.match(r'^(std::)?(vector<\s*(std::)?pair|unordered_multimap)<', t)
        return [(st, table(eng, 'empty', None, 'multimap' in m.group(2)))] if m else None

    def own(self, eng, st, args):
        for s1, vs in eng.evs(args, st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            if not vs:
                yield s1, Ptr(None, z3.IntVal(0), True)
                continue
            v = eng.rv(s1, vs[0])
            if z3.is_expr(v):
                v = self.ref(s1, v)
            self.moved(eng, s1, vs[0])
            yield s1, v

    def make(self, eng, st, cl, vs, n):
        """a frame made from another of the same class is its copy; otherwise it is new"""
        c = code(cl)
        if len(vs) == 1:
            h = self.handle(eng, st, vs[0])
            eng.oblige(st, 'copied as what it is', CLS(h) == c, n, 'postcondition')
            return self.fresh_frame(eng, st, like=h)
        h = self.fresh_frame(eng, st, cl=c)
        if cl in FIXED:
            st.assume(self.ident(h) == int.from_bytes(FIXED[cl].encode(), 'big'))
        elif cl == 'id3v2_%d_text_frame' % self.ver:
            st.assume(self.ident(h) == self.key(eng, st, vs[0]))
        elif cl.startswith('unknown'):
            st.assume(self.ident(h) == self.key(eng, st, vs[0]))
        st.ghost['made'] = (h, vs, cl)
        return h

    def m_new(self, eng, n, st):
        cl = self.frame_class(E.strip_type(E.qt(n)))
        if not self.is_frame_class(cl):
            return None
        return self.new(eng, n, st, cl)

    def new(self, eng, n, st, cl):
        e = eng.kids(n)[-1]
        for s1, vs in eng.evs([a for a in eng.kids(e) if a['kind'] != 'CXXDefaultArgExpr'], st):
            yield s1, (vs if isinstance(vs, Throw) else self.ref(s1, self.make(eng, s1, cl, vs, n)))

    def f_make(self, eng, st, t, vs, n):
        cl = self.frame_class(E.strip_type(E.qt(n)))
        if not self.is_frame_class(cl):
            raise Unsupported('make_unique of ' + cl)
        yield st, self.ref(st, self.make(eng, st, cl, vs, n))

    def f_index(self, eng, st, t, vs, n):
        """contract of index_frames: the tables are those of the frames"""
        o = eng.load(st, t)
        for k in self.tables():
            o = o.set(k, table(eng, k, z3.Int(fresh_name(k + '_len')), k.endswith('_map_')))
        eng.storev(st, t, o)
        g = dict(st.ghost.get('indexed', {}))
        g[t.cell] = (o.f['frames_'], {k: o.f[k] for k in self.tables()})
        st.ghost['indexed'] = g
        yield st, None

    def m_find(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if isinstance(t, Table):
            return self.find(eng, st, lv, t, vs)
        if isinstance(t, Opaque):
            return self.find_parser(eng, st, lv, t, vs)
        return None

    def find(self, eng, st, lv, t, vs):
        """some entry with the key, or none"""
        A, w = eng.A, self.key(eng, st, vs[0])
        e = z3.Int(fresh_name('found'))
        s1 = st.clone()
        s1.assume(z3.And(e >= 0, e < t.f['a'].len, t.f['a'].get(A, e) == w))
        s1.add_T(e)
        if eng.feasible(s1):
            b = t.f['b'].get(A, e)
            s1.add_T(b)
            s1.ghost['found'] = (lv.path[-1], e, w)
            self.frame_of(s1, lv.path[-1], e)
            if lv.path[-1] == 'text_map_':
                b = self.ref(s1, b)
            yield s1, Ptr(s1.alloc(Tup('pair', {'first': Opaque('key'), 'second': b}), 'entry'), z3.IntVal(0), True)
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j < t.f['a'].len), t.f['a'].get(A, j) != w), 'no entry'))
        f = self.F.get(lv.path[-1])
        if f is not None:
            st.assume(FA(lambda j: z3.Implies(z3.And(f(j) >= 0, f(j) < t.f['a'].len), t.f['a'].get(A, f(j)) != w), 'no entry'))
        st.ghost['found'] = (lv.path[-1], None, w)
        if self.op == 'get_frame':
            # the frame that is there has an entry (agreement, for this frame)
            st.assume(z3.And(self.entry('frame_map_', t, self.fr, self.F, self.one), z3.Not(t.f['a'].get(A, self.one) == w)))
            if not eng.feasible(st):
                return
        yield st, Ptr(None, z3.IntVal(0), True)

    def frame_of(self, st, k, e):
        """entry e of a table of a kind is that of the frame with e of its kind before it (lemma)"""
        f = self.F.get(k)
        if f is None:
            return e
        i = z3.Int(fresh_name('frame_of'))
        st.assume(z3.Implies(z3.And(e >= 0, e < f(self.fr.len)), z3.And(i >= 0, i < self.fr.len, f(i) == e, f(i + 1) == e + 1, CLS(self.fr.get(self.A, i)) == code(dict(KINDS[self.ver])[k]))))
        st.add_T(i)
        return i

    def find_parser(self, eng, st, lv, t, vs):
        """whether there is a parser is known of each identifier"""
        w, what = self.key(eng, st, vs[0]), lv.path[-1]
        for s1, yes in eng.fork(st, z3.Function('has_' + what, B32, z3.BoolSort())(w)):
            yield s1, Ptr(s1.alloc(Tup('pair', {'first': Opaque('key'), 'second': Opaque(what)}), 'entry') if yes else None, z3.IntVal(0), True)

    def f_copy(self, eng, st, t, vs, n):
        """an object made as a copy of a frame"""
        if len(vs) != 1:
            raise Unsupported('constructor of a frame')
        eng.storev(st, t, self.handle(eng, st, vs[0]))
        yield st, None

    def m_begin(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        return [(st, Ptr(lv, z3.IntVal(0)))] if isinstance(t, Table) else None

    def f_transform(self, eng, st, t, vs, n):
        """what the function makes of an arbitrary entry"""
        b, e = eng.rv(st, vs[0]), eng.rv(st, vs[1])
        tb = eng.load(st, b.lv)
        if not isinstance(tb, Table) or not b.lv.same(e.lv):
            raise Unsupported('transform')
        j = z3.Int(fresh_name('entry'))
        whole = z3.And(b.off == 0, e.off == tb.f['a'].len)
        st.assume(z3.And(j >= 0, j < tb.f['a'].len))
        st.add_T(j)
        self.frame_of(st, b.lv.path[-1], j)
        x = st.alloc(Tup('pair', {'first': self.ref(st, tb.f['a'].get(eng.A, j)), 'second': tb.f['b'].get(eng.A, j)}), 'entry')
        for s1, v in M.call_closure(eng, st, eng.rv(st, vs[3]), [x], n):
            if isinstance(v, Throw):
                yield s1, v
                continue
            s1.ghost['transformed'] = (b.lv.path[-1], whole, self.handle(eng, s1, v), tb.f['a'].get(eng.A, j))
            yield s1, eng.rv(s1, vs[2])

    def m_end(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if isinstance(t, Table) and not lv.path[-1].endswith('_map_'):
            return [(st, Ptr(lv, t.f['a'].len))]
        if isinstance(t, Table) or isinstance(t, Opaque) and lv.path and str(lv.path[-1]).endswith('parsers_'):
            return [(st, Ptr(None, z3.IntVal(0), True))]
        return None

    def m_size(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        return [(st, t.f['a'].len)] if isinstance(t, Table) else None

    def m_empty(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        return [(st, t.f['a'].len == 0)] if isinstance(t, Table) else None

    def m_deref(self, eng, st, a, name, vs, n, args):
        v = eng.rv(st, a)
        if not (z3.is_expr(v) and v.sort() == I):
            return None
        r = self.ref(st, v)
        return [(st, r if name == 'operator->' else r.lv)]

    def m_count(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if not isinstance(t, Table):
            return None
        r = z3.Int(fresh_name('count'))
        st.assume(z3.And(r >= 0, r <= t.f['a'].len))
        st.ghost['counted'] = (lv.path[-1], self.key(eng, st, vs[0]), r)
        return [(st, r)]

    def m_parser(self, eng, st, a, name, vs, n, args):
        """a registered parser returns a frame with the identifier given: a text frame, or one of no kind that is handled specially"""
        p = eng.rv(st, a)
        if not (isinstance(p, Opaque) and p.name.endswith('parsers_')):
            return None
        h = self.fresh_frame(eng, st)
        st.assume(self.ident(h) == self.key(eng, st, vs[1]))
        kinds = [code(c) for _, c in KINDS[self.ver]]
        st.assume(CLS(h) == code('id3v2_%d_text_frame' % self.ver) if p.name == 'text_parsers_' else z3.And(*[CLS(h) != c for c in kinds]))
        st.ghost['made'] = (h, vs[1:], p.name)
        return [(st, self.ref(st, h))]

    def m_dynamic(self, eng, st, v, n):
        """dynamic_cast to a pointer or reference to one of the frame classes"""
        t = n['type'].get('qualType', '')
        cl = E.strip_type(E.qt(n)).replace('*', '').strip()
        h = self.handle(eng, st, v)
        is_ = CLS(h) == code(cl)
        for s1, yes in eng.fork(st, is_):
            if '*' in t:
                yield s1, (self.ref(s1, h) if yes else Ptr(None, z3.IntVal(0), True))
            else:
                yield s1, (v if yes else Throw('std::bad_cast'))

    def id_struct(self, eng, st, w):
        n = 3 if self.ver == 2 else 4
        bs = [z3.simplify(z3.Extract(8 * (n - 1 - i) + 7, 8 * (n - 1 - i), w)) for i in range(n)]
        o = eng.default_struct(st, eng.record(S + 'frame_id%d' % n), 'id')
        return o.set('id_', seq_const(eng.A, bs))

    def f_id(self, eng, st, t, vs, n):
        h = self.handle(eng, st, t)
        yield st, self.id_struct(eng, st, ID(h))

    def fresh_frame(self, eng, st, cl=None, like=None):
        h = z3.Int(fresh_name('new_frame'))
        st.assume(h >= (1 << 40))
        st.add_T(h)
        if cl is not None:
            st.assume(CLS(h) == cl)
        if like is not None:
            st.assume(z3.And(CLS(h) == CLS(like), ID(h) == ID(like), WHAT(h) == WHAT(like)))
        return h

    def f_clone(self, eng, st, t, vs, n):
        """a clone is a new frame of the same class, identifier and contents"""
        yield st, self.ref(st, self.fresh_frame(eng, st, like=self.handle(eng, st, t)))

    # ---------------------------------------------------------------- loops
    def loops(self, eng, nd, st, fn):
        return Fill(self)

    def more(self, eng, entry, head, v, add):
        pass


class Index(Base):
    """index_frames: afterwards the tables are those of the frames"""

    def __init__(self, ver):
        self.ver = ver
        self.qname = S + 'id3v2_%d_tag::index_frames' % ver
        self.label = self.qname

    def pre(self, eng, st):
        self.install(eng, st)
        del eng.abstract_methods[self.qname]
        o, fr, F = self.tag(eng, st, 'tag', agrees=False)
        self.count_def(st, fr, F, 0, fr.len)
        self.o, self.fr, self.F, self.n = o, fr, F, fr.len
        self.this = st.alloc(o, 'tag')
        return self.this, [], None

    def more(self, eng, entry, head, v, add):
        for i, (name, g) in enumerate(self.agree(eng, None, self.o, self.fr, self.F, v.fn(head))):
            def f(st, *j, i=i):
                st.add_T(v.fn(st))
                g = self.agree(eng, None, eng.load(st, self.this), self.fr, self.F, v.fn(st))[i][1]
                return g.fn(*j) if isinstance(g, FA) else g
            add('up to %s, %s' % (v.name, name), f, 1 if isinstance(g, FA) else 0)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, self.this)
        st.add_T(self.n)
        same = o.f['frames_'] is self.fr
        return [('the frames are left alone', z3.BoolVal(same))] + self.agree(eng, st, o, self.fr, self.F, self.n)


class Edit(Base):
    """an edit puts the frames where it says and leaves the tables those of the frames"""

    def __init__(self, ver, op, arg=None):
        self.ver, self.op, self.arg = ver, op, arg
        self.cls = S + 'id3v2_%d_tag' % ver
        self.qname = self.cls + '::' + {'assign': 'mutable_frame_proxy::operator=', 'exchange': 'mutable_frame_proxy::operator=', 'exchange between tags': 'mutable_frame_proxy::operator=', 'erase range': 'erase'}.get(op, op)
        self.label = self.qname + (' (%s)' % arg if arg else '') + (' [%s]' % op if op in ('exchange', 'exchange between tags', 'erase range') else '')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        if self.op in ('push_back', 'insert', 'assign'):
            return bool(re.match(r'^const (scribbu::)?%s &$' % self.arg, ps[-1]))
        if self.op.startswith('exchange'):
            return '&&' in ps[0]
        if self.op == 'erase':
            return len(ps) == 1
        if self.op == 'erase range':
            return len(ps) == 2
        return True

    def iterator(self, eng, st, t, k):
        fr = t.field('frames_')
        r = [eng.record(S + 'id3v2_tag::const_frame_iterator')]
        o = eng.default_struct(st, r[0], 'it')
        return st.alloc(o.set('p0_', Ptr(fr, z3.IntVal(0))).set('p_', Ptr(fr, k)), 'it')

    def pre(self, eng, st):
        self.install(eng, st)
        o, fr, F = self.tag(eng, st, 'tag')
        self.o, self.fr, self.F, self.n = o, fr, F, fr.len
        self.this = this = st.alloc(o, 'tag')
        self.k, self.k2 = z3.Int('position'), z3.Int('position_2')
        self.h = h = z3.Int('frame_given')
        st.assume(z3.And(h > 0, h < (1 << 40)))
        st.add_T(h)
        st.add_T(self.k)
        st.add_T(self.k2)
        if self.arg and not self.arg.endswith('%d_frame' % self.ver):
            st.assume(CLS(h) == code(self.arg))
        ref = st.alloc(h, 'given')
        self.other = None
        op = self.op
        if op == 'push_back':
            return this, [ref], None
        if op == 'insert':
            st.assume(z3.And(self.k >= 0, self.k <= self.n))
            return this, [self.iterator(eng, st, this, self.k), ref], None
        if op == 'erase':
            st.assume(z3.And(self.k >= 0, self.k < self.n))
            return this, [self.iterator(eng, st, this, self.k)], None
        if op == 'erase range':
            st.assume(z3.And(self.k >= 0, self.k <= self.k2, self.k2 <= self.n))
            return this, [self.iterator(eng, st, this, self.k), self.iterator(eng, st, this, self.k2)], None
        if op in ('assign', 'exchange', 'exchange between tags'):
            rec = eng.record(self.cls + '::mutable_frame_proxy')
            st.assume(z3.And(self.k >= 0, self.k < self.n))

            def proxy(t, k):
                p = eng.default_struct(st, rec, 'proxy')
                return st.alloc(p.set('p_', Ptr(t, z3.IntVal(0), True)).set('idx_', k), 'proxy')
            p = proxy(this, self.k)
            if op == 'assign':
                return p, [ref], None
            if op == 'exchange between tags':
                o2, self.fr2, _ = self.tag(eng, st, 'other')
                self.other = st.alloc(o2, 'other tag')
                st.assume(z3.And(self.k2 >= 0, self.k2 < self.fr2.len))
                return p, [proxy(self.other, self.k2)], None
            st.assume(z3.And(self.k2 >= 0, self.k2 < self.n))
            return p, [proxy(this, self.k2)], None
        raise Unsupported(op)

    def like(self, a, b):
        return z3.And(CLS(a) == CLS(b), ID(a) == ID(b), WHAT(a) == WHAT(b))

    def agreement(self, eng, st, t, fr0, F):
        """the tables of the tag are those of its frames"""
        o = eng.load(st, t)
        fr, A = o.f['frames_'], eng.A
        g = st.ghost.get('indexed', {}).get(t.cell)
        if g is not None:
            R = [('%s: made anew from the frames' % k, z3.BoolVal(o.f[k] is g[1][k])) for k in self.tables()]
            if fr is not g[0]:
                R.append(('indexed after the last change', z3.And(fr.len == g[0].len)))
                R.append(('indexed after the last change', FA(lambda j: z3.Implies(z3.And(j >= 0, j < fr.len), fr.get(A, j) == g[0].get(A, j)))))
            return R
        # frames were only added at the end
        self.count_def(st, fr, F, fr0.len, fr.len)
        st.add_T(fr.len)
        return self.agree(eng, st, o, fr, F, fr.len)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        A, n, k, k2, h, f0 = eng.A, self.n, self.k, self.k2, self.h, self.fr
        o = eng.load(st, self.this)
        fr = o.f['frames_']
        st.add_T(n)
        st.add_T(fr.len)
        at = lambda j: fr.get(A, j)
        old = lambda j: f0.get(A, j)
        each = lambda name, f: ('%s' % name, FA(lambda j: z3.Implies(z3.And(j >= 0, j < fr.len), f(j))))
        op = self.op
        R = []
        if op == 'push_back':
            R += [('one frame more', fr.len == n + 1), each('the others in place', lambda j: z3.Implies(j < n, at(j) == old(j))), ('the frame given is last', self.like(at(n), h))]
        elif op == 'insert':
            R += [('one frame more', fr.len == n + 1), each('the others in order', lambda j: z3.And(z3.Implies(j < k, at(j) == old(j)), z3.Implies(j > k, at(j) == old(j - 1)))),
                  ('the frame given at its place', self.like(at(k), h)), ('the position of the frame is returned', self.where_(eng, st, out) == k)]
        elif op in ('erase', 'erase range'):
            e = k + 1 if op == 'erase' else k2
            R += [('the frames asked for are gone', fr.len == n - (e - k)), each('the others in order', lambda j: at(j) == z3.If(j < k, old(j), old(j + e - k))),
                  ('the next position is returned', self.where_(eng, st, out) == k)]
        elif op == 'assign':
            R += [('as many frames', fr.len == n), each('the others in place', lambda j: z3.Implies(j != k, at(j) == old(j))), ('the frame given at its place', self.like(at(k), h))]
        elif op == 'exchange':
            R += [('as many frames', fr.len == n), each('the others in place', lambda j: z3.Implies(z3.And(j != k, j != k2), at(j) == old(j))),
                  ('the two frames exchanged', z3.And(at(k) == old(k2), at(k2) == old(k)))]
        elif op == 'exchange between tags':
            g0, gr = self.fr2, eng.load(st, self.other).f['frames_']
            st.add_T(gr.len)
            R += [('as many frames', z3.And(fr.len == n, gr.len == g0.len)), each('the others in place', lambda j: z3.Implies(j != k, at(j) == old(j))),
                  ('the others of the other tag in place', FA(lambda j: z3.Implies(z3.And(j >= 0, j < gr.len, j != k2), gr.get(A, j) == g0.get(A, j)))),
                  ('the two frames exchanged', z3.And(at(k) == g0.get(A, k2), gr.get(A, k2) == old(k)))]
            if self.other.cell not in st.ghost.get('indexed', {}):
                return [('the other tag is indexed', z3.BoolVal(False))]
            R += [('of the other tag, ' + x, g) for x, g in self.agreement(eng, st, self.other, g0, None)]
        return R + self.agreement(eng, st, self.this, f0, self.F)

    def where_(self, eng, st, out):
        it = eng.rv(st, out[1])
        return it.f['p_'].off


class Adds(Edit):
    """comments, texts and parsed frames are added at the end; a text that is there is changed in place"""

    def __init__(self, ver, op):
        Edit.__init__(self, ver, op)

    def pre(self, eng, st):
        self.install(eng, st)
        v, A = self.ver, eng.A
        o, fr, F = self.tag(eng, st, 'tag')
        for k in ('text_parsers_', 'generic_parsers_'):
            o = o.set(k, Opaque(k))
        self.o, self.fr, self.F, self.n = o, fr, F, fr.len
        self.this = this = st.alloc(o, 'tag')
        self.w = z3.BitVec('identifier_given', 32)
        if v == 2:
            st.assume(z3.ULT(self.w, 1 << 24))
        self.set_on = st.alloc(z3.IntVal(0), 'frame changed')
        eng.abstract_methods[S + 'id3v2_%d_text_frame::set' % v] = self.f_set
        opq = lambda x: st.alloc(Opaque(x), x)
        if self.op == 'parse_frame':
            (fn,) = eng.tu.find(self.qname)
            self.args = []
            for p in E.TU.params(fn):
                nm = p['name']
                x = opq(nm) if nm not in ('id', 'p0', 'p1') else None
                if nm == 'id':
                    x = st.alloc(self.id_struct(eng, st, self.w), 'id')
                elif nm in ('p0', 'p1'):
                    buf = self.buf = getattr(self, 'buf', None) if nm == 'p1' else st.alloc(seq_sym(A, 'bytes', z3.Int('size'), 8, 'array'), 'buf')
                    x = Ptr(buf, z3.IntVal(0) if nm == 'p0' else z3.Int('size'))
                self.args.append(x)
            st.assume(z3.And(z3.Int('size') >= 0, z3.Int('size') < (1 << 40)))
            return this, list(self.args), None
        if self.op == 'set_text_frame':
            return this, [st.alloc(self.id_struct(eng, st, self.w), 'id')] + [opq(x) for x in ('text', 'encoding', 'bom', 'rsp') + ('dst',) * (v == 4)], None
        if self.op == 'delete_frame':
            f = S + 'frame_id%d::frame_id%d' % ((3, 3) if v == 2 else (4, 4))
            self.x = z3.BitVec('which', 32)
            IDOF = z3.Function('identifier_of', B32, B32)
            for g in text_id(v, self.x):               # proved (Ident)
                st.assume(g)
            st.assume(z3.Or(*[self.x == i for i, (k, t) in enumerate(TEXTS) if v > 2 or t]))
            self.w = IDOF(self.x)

            def ident(eng, st, t, vs, n):
                eng.storev(st, t, self.id_struct(eng, st, IDOF(eng.rv(st, vs[0]))))
                yield st, None
            eng.abstract_methods[f] = ident
            return this, [self.x], None
        nargs = 6 if self.op == 'add_comment' else 5
        return this, [opq('argument %d' % i) for i in range(nargs)], None

    def f_set(self, eng, st, t, vs, n):
        eng.storev(st, self.set_on, self.handle(eng, st, t))
        yield st, None

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        A, n, f0, v = eng.A, self.n, self.fr, self.ver
        fr = eng.load(st, self.this).f['frames_']
        at, old = (lambda j: fr.get(A, j)), (lambda j: f0.get(A, j))
        st.add_T(n)
        st.add_T(fr.len)
        each = lambda name, f: ('%s' % name, FA(lambda j: z3.Implies(z3.And(j >= 0, j < fr.len), f(j))))
        kept = [each('the others in place', lambda j: z3.Implies(j < n, at(j) == old(j)))]
        op = self.op
        cl = dict(zip(('com', 'cnt', 'pop', 'txt'), [c for _, c in KINDS[v]]))
        if op == 'delete_frame':
            g = st.ghost.get('found')
            if g is None:
                return [('looked for', z3.BoolVal(False))]
            if g[1] is None:
                return [('nothing else happens', fr.len == n)] + kept + [('no frame has the identifier', FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), self.ident(old(j)) != self.w)))]
            o = self.o.f[g[0]]
            k = o.f['b'].get(A, g[1])
            st.add_T(k)
            return [('one frame less', fr.len == n - 1), ('a frame of the tag', z3.And(k >= 0, k < n)), ('the frame deleted has the identifier', self.ident(old(k)) == self.w),
                    each('the others in order', lambda j: at(j) == z3.If(j < k, old(j), old(j + 1)))] + self.agreement(eng, st, self.this, f0, self.F)
        if op == 'set_text_frame':
            h = eng.load(st, self.set_on)
            isnew = fr.len == n + 1
            T = code(cl['txt'])
            g = st.ghost.get('found')
            R = kept + [('as many frames, or one more', z3.Or(fr.len == n, isnew)), ('a text frame of the tag is changed', z3.Implies(fr.len == n, z3.And(h > 0, self.ident(h) == self.w))),
                        ('a new text frame has the identifier', z3.Implies(isnew, z3.And(h == 0, CLS(at(n)) == T, self.ident(at(n)) == self.w))),
                        ('a frame is added only if there was none', FA(lambda j: z3.Implies(z3.And(isnew, j >= 0, j < n, CLS(old(j)) == T), self.ident(old(j)) != self.w)))]
            return R + self.agreement(eng, st, self.this, f0, self.F)
        R = kept + [('one frame more', fr.len == n + 1)]
        m = st.ghost.get('made')
        h = at(n)
        if m is None:
            return [('a frame is made', z3.BoolVal(False))]
        R.append(('the frame made is last', h == m[0]))
        if op == 'add_comment':
            R.append(('a comment', CLS(h) == code(cl['com'])))
        elif op == 'add_user_defined_text':
            R.append(('a user-defined text', CLS(h) == code({2: 'TXX', 3: 'TXXX', 4: 'TXXX_2_4'}[v])))
        else:
            R.append(('the frame has the identifier given', self.ident(h) == self.w))
            for x, k in (('COM' if v == 2 else 'COMM', 'com'), ('CNT' if v == 2 else 'PCNT', 'cnt'), ('POP' if v == 2 else 'POPM', 'pop')):
                R.append(('%s frames have their class' % x, (self.w == int.from_bytes(x.encode(), 'big')) == (CLS(h) == code(cl[k]))))
            tp = z3.Function('has_text_parsers_', B32, z3.BoolSort())
            special = [int.from_bytes(x.encode(), 'big') for x in (('COM', 'CNT', 'POP') if v == 2 else ('COMM', 'PCNT', 'POPM', 'PRIV'))]
            R.append(('texts have their class', (CLS(h) == code(cl['txt'])) == z3.And(tp(self.w), *[self.w != x for x in special])))
            gp = z3.Function('has_generic_parsers_', B32, z3.BoolSort())
            R.append(('unknown only if nothing else', (CLS(h) == code('unknown_id3v2_%d_frame' % v)) == z3.And(z3.Not(tp(self.w)), z3.Not(gp(self.w)), *[self.w != x for x in special]))
                     if m[2] != 'generic_parsers_' else ('a parser only where there is one', gp(self.w)))
            R += self.handed_on(eng, st, m)
        return R + self.agreement(eng, st, self.this, f0, self.F)

    def handed_on(self, eng, st, m):
        """the frame is made of the flags, fields and bytes given, in the order of its parameters"""
        vals = [eng.rv(st, x) for x in m[1]]
        has = lambda i: any(x is i for x in vals)
        R = []
        names = [p['name'] for p in E.TU.params(eng.tu.find(self.qname)[0])]
        for nm, x in zip(names, self.args):
            if nm in ('id', 'size'):
                continue
            x = eng.rv(st, x)
            if isinstance(x, Ptr):
                same = lambda y: isinstance(y, Ptr) and y.lv is not None and y.lv.same(x.lv) and z3.simplify(y.off).eq(z3.simplify(x.off)) or \
                    nm == 'p1' and z3.is_expr(y) and z3.simplify(y).eq(z3.simplify(x.off))
                ok = any(same(y) for y in vals)
                R.append(('%s is handed on' % nm, z3.BoolVal(True) if ok or nm == 'p0' else z3.Or(*[y == x.off for y in vals if z3.is_expr(y) and y.sort() == I])))
            else:
                R.append(('%s is handed on' % nm, z3.BoolVal(has(x))))
        return R


class Copy(Edit):
    """a copy has copies of the frames and of the extended header, and the settings"""

    def __init__(self, ver, op, ext=False, own=False):
        self.ver, self.op, self.ext, self.over, self.arg = ver, op, ext, own, None
        c = 'id3v2_%d_tag' % ver
        self.qname = S + c + '::' + (c if op == 'copy' else 'operator=')
        self.label = self.qname + ' [%s%s%s]' % ('copy', ', extended header' if ext else '', ', over an extended header' if own else '')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) == 1 and ps[0].endswith('id3v2_%d_tag &' % self.ver) and ps[0].startswith('const')

    OPAQUE = ('text_parsers_', 'generic_parsers_', 'encryption_methods_')

    def dress(self, eng, st, o, name, ext):
        for k in self.OPAQUE:
            if k in o.f:
                o = o.set(k, Opaque('%s of %s' % (k, name)))
        if 'pext_header_' in o.f:
            e = None
            if ext:
                rec = eng.record(S + 'id3v2_%d_tag::ext_header' % self.ver)
                e = st.alloc(eng.any_struct(st, rec, name + ' ext'), name + ' ext')
            o = o.set('pext_header_', Ptr(e, z3.IntVal(0), True))
        return o

    def pre(self, eng, st):
        self.install(eng, st)
        o, fr, F = self.tag(eng, st, 'that')
        o = self.dress(eng, st, o, 'that', self.ext)
        self.o, self.fr, self.F, self.n = o, fr, F, fr.len
        self.that = st.alloc(o, 'that')
        if self.op == 'copy':
            t = self.dress(eng, st, self.tag(eng, st, 'raw', agrees=False)[0], 'raw', False)
            # a constructor starts from empty containers
            t = t.set('frames_', Seq(lambda j: z3.IntVal(0), z3.IntVal(0), 'int', 'vector'))
            for k in self.tables():
                t = t.set(k, table(eng, k, None, k.endswith('_map_')))
        else:
            t = self.dress(eng, st, self.tag(eng, st, 'old')[0], 'old', self.over)
        self.this = st.alloc(t, 'tag')
        return self.this, [self.that], None

    def clone_of(self, a, b):
        return z3.And(a >= (1 << 40), CLS(a) == CLS(b), ID(a) == ID(b), WHAT(a) == WHAT(b))

    def more(self, eng, entry, head, v, add):
        A = eng.A
        fr = lambda st: eng.load(st, self.this).f['frames_']
        add('up to %s, as many frames' % v.name, lambda st: fr(st).len == v.fn(st))
        add('up to %s, copies of the frames' % v.name, lambda st, j: z3.Implies(z3.And(j >= 0, j < v.fn(st)), self.clone_of(fr(st).get(A, j), self.fr.get(A, j))), 1)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        A = eng.A
        o, that = eng.load(st, self.this), eng.load(st, self.that)
        fr = o.f['frames_']
        st.add_T(fr.len)
        R = [('as many frames', fr.len == self.n),
             ('copies of the frames', FA(lambda j: z3.Implies(z3.And(j >= 0, j < fr.len), self.clone_of(fr.get(A, j), self.fr.get(A, j))))),
             ('the frames of the original are left alone', z3.BoolVal(that.f['frames_'] is self.fr))]
        R += [('%s of the original is left alone' % k, z3.BoolVal(that.f[k] is self.o.f[k])) for k in sorted(that.f)]
        for k in sorted(o.f):
            x, y = o.f[k], self.o.f[k]
            if k in self.tables() or k == 'frames_' or not k.endswith('_'):   # DST is static
                continue
            if k == 'pext_header_':
                if not self.ext:
                    R.append(('no extended header', z3.BoolVal(isinstance(x, Ptr) and x.lv is None)))
                    continue
                ok = isinstance(x, Ptr) and x.lv is not None and not x.lv.same(y.lv)
                R.append(('an extended header of its own', z3.BoolVal(ok)))
                if ok:
                    R += self.equal('extended header', eng.load(st, x.lv), eng.load(st, y.lv))
            else:
                R += self.equal(k, x, y)
        return R + self.agreement(eng, st, self.this, None, None)

    def equal(self, name, x, y):
        if x is y:
            return [('%s is copied' % name, z3.BoolVal(True))]
        if isinstance(x, Opt) and isinstance(y, Opt):
            g = x.f['has'] == y.f['has']
            v, w = x.f['val'], y.f['val']
            if not z3.is_false(z3.simplify(y.f['has'])):
                g = z3.And(g, z3.Implies(y.f['has'], v == w)) if z3.is_expr(v) and z3.is_expr(w) and v.sort() == w.sort() else z3.BoolVal(False)
            return [('%s is copied' % name, g)]
        if isinstance(x, Struct) and isinstance(y, Struct):
            return [g for k in sorted(y.f) for g in self.equal(name + '.' + k, x.f.get(k), y.f[k])]
        if isinstance(x, Seq) and isinstance(y, Seq):
            A = self.A
            return [('%s is copied: length' % name, x.len == y.len),
                    ('%s is copied' % name, FA(lambda j: z3.Implies(z3.And(A.le(A.const(0), j), A.lt(j, y.len)), x.get(A, j) == y.get(A, j))))]
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
            return [('%s is copied' % name, x == y)]
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            return [('%s is copied' % name, z3.BoolVal(x.name == y.name))]
        return [('%s is copied' % name, z3.BoolVal(False))]


class Walk(Edit):
    """positions: where a tag begins and ends, moving, comparing, and the frame at a position"""

    def __init__(self, ver, cls, op, const=False):
        self.ver, self.c, self.op, self.const, self.arg = ver, cls, op, const, None
        q = {'post++': 'operator++', 'post--': 'operator--', 'index': 'index'}.get(op, 'operator' + op)
        tag = 'id3v2_%d_tag' % ver
        if cls == 'tag':
            self.qname = S + tag + '::' + op
        elif cls == 'proxy':
            self.qname = S + tag + '::mutable_frame_proxy::' + ('operator scribbu::id3v2_%d_frame &' % ver if op == 'frame' else q)
        elif cls == 'frame_iterator_base' and op != 'index':
            self.qname = S + q
        else:
            self.qname = S + 'id3v2_tag::' + cls + '::' + q
        self.cls = S + tag
        self.label = '%s, version 2.%d%s%s' % (self.qname, ver, ' const' if const else '', ' (after)' if op.startswith('post') else '')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        if self.c == 'tag':
            return f['type']['qualType'].endswith('const') == self.const
        if 'mangledName' not in f:      # the template itself
            return False
        if self.qname.startswith(S + 'operator'):
            return len(ps) == 2 and 'frame_iterator_base<' in ps[0]
        return len(ps) == (0 if self.op in ('++', '--') else 1 if self.op in ('post++', 'post--') else len(ps))

    def at(self, eng, st, cls, t, k):
        fr = t.field('frames_')
        o = eng.default_struct(st, eng.record(S + 'id3v2_tag::' + cls), 'it')
        o = o.set('p0_', Ptr(fr, z3.IntVal(0))).set('p_', Ptr(fr, k))
        if cls == 'frame_iterator':
            o = o.set('pown_', Ptr(t, z3.IntVal(0), True))
        return st.alloc(o, 'it')

    def pre(self, eng, st):
        self.install(eng, st)
        o, fr, F = self.tag(eng, st, 'tag')
        self.o, self.fr, self.n = o, fr, fr.len
        self.t = t = st.alloc(o, 'tag')
        self.k, self.i = k, i = z3.Int('position'), z3.Int('i')
        st.add_T(k)
        op = self.op
        st.assume(z3.And(k >= 0, k <= self.n))
        if self.c == 'tag':
            return t, [], None
        if self.c == 'proxy':
            st.assume(k < self.n)
            p = eng.default_struct(st, eng.record(self.cls + '::mutable_frame_proxy'), 'proxy')
            return st.alloc(p.set('p_', Ptr(t, z3.IntVal(0), True)).set('idx_', k), 'proxy'), [], None
        if self.c == 'frame_iterator_base':
            self.this = self.at(eng, st, 'const_frame_iterator', t, k)
            if op == 'index':
                return self.this, [], None
            st.assume(z3.And(i >= 0, i <= self.n))
            return None, [self.this, self.at(eng, st, 'const_frame_iterator', t, i)], None
        self.this = self.at(eng, st, self.c, t, k)
        self.to = {'++': k + 1, 'post++': k + 1, '--': k - 1, 'post--': k - 1, '+=': k + i, '+': k + i, '-=': k - i, '-': k - i, '[]': k + i}.get(op, k)
        st.assume(z3.And(self.to >= 0, self.to <= self.n))
        st.add_T(self.to)
        if op in ('*', '->', '[]'):
            st.assume(self.to < self.n)
        args = [i] if op in ('+=', '-=', '+', '-', '[]') else [z3.IntVal(0)] if op.startswith('post') else []
        return self.this, args, None

    def is_at(self, eng, st, v, k):
        v = eng.rv(st, v)
        f = v.f
        p, q = f['p_'], f['p0_']
        fr = self.t.field('frames_')
        ok = all(isinstance(x, Ptr) and x.lv is not None and x.lv.same(fr) for x in (p, q))
        if 'pown_' in f:
            ok = ok and f['pown_'].lv is not None and f['pown_'].lv.same(self.t)
        return z3.And(p.off == k, q.off == 0) if ok else z3.BoolVal(False)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        op, k, i, r = self.op, self.k, self.i, out[1]
        R = [('the tag is left alone', z3.BoolVal(eng.load(st, self.t) is self.o))]
        if self.c == 'tag':
            return R + [('the position', self.is_at(eng, st, r, z3.IntVal(0) if 'begin' in op else self.n))]
        if self.c == 'proxy':
            return R + [('the frame at the position', self.handle(eng, st, r) == self.fr.get(eng.A, k))]
        if self.c == 'frame_iterator_base':
            v = eng.rv(st, r)
            w = {'index': k, '-': k - i, '==': k == i, '!=': k != i, '<': k < i}[op]
            return R + [('the position stays', self.is_at(eng, st, self.this, k)), ('the answer', v == w)]
        moved = op in ('++', 'post++', '--', 'post--', '+=', '-=')
        R.append(('this position moves as asked', self.is_at(eng, st, self.this, self.to if moved else k)))
        if op in ('*', '->', '[]'):
            if self.c == 'frame_iterator':
                f = eng.rv(st, r).f
                ok = f['p_'].lv is not None and f['p_'].lv.same(self.t)
                R.append(('stands for the frame at the position', z3.And(z3.BoolVal(ok), f['idx_'] == self.to)))
            else:
                R.append(('the frame at the position', self.handle(eng, st, r) == self.fr.get(eng.A, k)))
        else:
            R.append(('the position returned', self.is_at(eng, st, r, k if op.startswith('post') else self.to)))
        return R


class New(Copy):
    """a new tag has no frames, the padding asked for and nothing else"""

    def __init__(self, ver, ext=0):
        self.ver, self.ext, self.arg = ver, ext, None
        c = 'id3v2_%d_tag' % ver
        self.qname = S + c + '::' + c
        self.label = self.qname + ' [new%s]' % ('', ', extended header', ', extended header with a checksum')[ext]

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) >= 2 and 'size_t' in ps[0] and ps[1] == 'bool'

    def pre(self, eng, st):
        self.install(eng, st)
        for k in ('get_default_generic_frame_parsers', 'get_default_text_frame_parsers'):
            eng.abstract_methods[k] = lambda eng, st, this, vals, n: iter([(st, None)])
        eng.abstract_methods['inserter'] = lambda eng, st, this, vals, n: iter([(st, Opaque('inserter'))])
        eng.abstract_methods['make_shared'] = self.f_header
        begin = eng.model_overrides['begin']
        eng.model_overrides['begin'] = lambda eng, st, lv, name, vs, n, args: \
            [(st, Opaque('begin'))] if isinstance(eng.rv(st, lv), Opaque) else begin(eng, st, lv, name, vs, n, args)
        t = self.dress(eng, st, self.tag(eng, st, 'raw', agrees=False)[0], 'raw', False)
        t = t.set('frames_', Seq(lambda j: z3.IntVal(0), z3.IntVal(0), 'int', 'vector'))
        for k in self.tables():
            t = t.set(k, table(eng, k, None, k.endswith('_map_')))
        self.t, self.this = t, st.alloc(t, 'tag')
        self.pad, self.exp = z3.Int('cbpad'), z3.Bool('fexp')
        st.assume(z3.And(self.pad >= 0, self.pad < 1 << 40))
        return self.this, [self.pad, self.exp] + ([eng.const_int(eng.tu.enums[S + 'id3v2_3_tag::want_extended_header'][('none', 'present', 'with_crc')[self.ext]], 'int')] if self.ver == 3 else []), None

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, self.this)
        f = o.f
        R = [('no frames', f['frames_'].len == 0), ('the padding asked for', f['padding_'] == self.pad),
             ('the version', z3.And(f['version_'] == self.ver, f['revision_'] == 0))]
        if self.ver == 2:
            R.append(('not compressed', z3.Not(f['compression_'])))
        else:
            R.append(('experimental as asked for', f['experimental_'] == self.exp))
        if self.ver == 4:
            R.append(('no footer', z3.Not(f['footer_'])))
        if 'pext_header_' in f:
            x = f['pext_header_']
            R.append(('an extended header if asked for', z3.BoolVal(isinstance(x, Ptr) and (x.lv is not None) == bool(self.ext))))
        return R + [('%s is empty' % k, f[k].f['a'].len == 0) for k in self.tables()]

    def f_header(self, eng, st, t, vs, n):
        rec = eng.record(S + 'id3v2_%d_tag::ext_header' % self.ver)
        eng.oblige(st, 'the extended header is told the padding', eng.rv(st, vs[0]) == self.pad, n, 'postcondition')
        p = eng.rv(st, vs[1]) if len(vs) > 1 else None
        crc = isinstance(p, Ptr) and p.lv is not None and p.lv.same(self.this)
        eng.oblige(st, 'with a checksum of this tag if asked for', z3.BoolVal(crc == (self.ext == 2)), n, 'postcondition')
        yield st, Ptr(st.alloc(eng.default_struct(st, rec, 'ext'), 'ext'), z3.IntVal(0), True)


class Clone(Copy):
    """a clone is a new frame of the same class with the same members"""
    mode = 'bv'

    def __init__(self, ver, cls):
        self.ver, self.c, self.arg = ver, cls, None
        self.qname = self.label = S + cls + '::clone'

    def pick(self, f):
        return True

    def pre(self, eng, st):
        self.o = eng.any_struct(st, eng.record(S + self.c), 'frame')
        self.this = st.alloc(self.o, 'frame')
        self.A = eng.A
        if 'id_' in self.o.f and isinstance(self.o.f['id_'], Struct):
            st.assume(self.o.f['experimental_'] == self.o.f['id_'].f['experimental_'])     # so made
        return self.this, [], None

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        p = eng.rv(st, out[1])
        if not (isinstance(p, Ptr) and p.lv is not None and not p.lv.same(self.this)):
            return [('a new frame', z3.BoolVal(False))]
        x = eng.load(st, p.lv)
        R = [('of the same class', z3.BoolVal(x.cls == self.o.cls)), ('the frame is left alone', z3.BoolVal(eng.load(st, self.this) is self.o))]
        # what is kept of an earlier serialization may be dropped
        CACHE = ('cache_', 'dirty_', 'num_false_syncs_')
        for k in sorted(self.o.f):
            for name, g in self.equal(k, x.f.get(k), self.o.f[k]):
                if k in CACHE:
                    g = FA(lambda j, g=g: z3.Or(x.f['dirty_'], g.fn(j))) if isinstance(g, FA) else z3.Or(x.f['dirty_'], g)
                R.append((name, g))
        return R


CLONES = {2: ['unknown_id3v2_2_frame', 'UFI', 'id3v2_2_text_frame', 'TXX', 'COM', 'CNT', 'POP', 'XTG'],
          3: ['unknown_id3v2_3_frame', 'UFID', 'ENCR', 'id3v2_3_text_frame', 'TXXX', 'COMM', 'PCNT', 'POPM', 'XTAG', 'PRIV'],
          4: ['unknown_id3v2_4_frame', 'UFID_2_4', 'ENCR_2_4', 'id3v2_4_text_frame', 'TXXX_2_4', 'COMM_2_4', 'PCNT_2_4', 'POPM_2_4', 'XTAG_2_4', 'PRIV_2_4']}
NAMED = {'album': ('TAL', 'TALB', 'TALB'), 'artist': ('TP1', 'TPE1', 'TPE1'), 'content_type': ('TCO', 'TCON', 'TCON'), 'encoded_by': ('TEN', 'TENC', 'TENC'),
         'languages': ('TLA', 'TLAN', 'TLAN'), 'title': ('TT2', 'TIT2', 'TIT2'), 'track': ('TRK', 'TRCK', 'TRCK'), 'year': ('TYE', 'TYER', 'TYER')}


GETS = ['get_comments', 'get_play_counts', 'get_popularimeters']


class Reader(Edit):
    """what a tag says of its frames is what the frames are"""

    def __init__(self, ver, op):
        Edit.__init__(self, ver, op)

    def pick(self, f):
        return True

    def pre(self, eng, st):
        self.install(eng, st)
        o, fr, F = self.tag(eng, st, 'tag')
        self.o, self.fr, self.F, self.n = o, fr, F, fr.len
        self.this = st.alloc(o, 'tag')
        self.w = z3.BitVec('identifier_given', 32)
        if self.ver == 2:
            st.assume(z3.ULT(self.w, 1 << 24))
        eng.model_overrides['front'] = self.m_front
        v = self.ver
        for c in ('CNT' if v == 2 else 'PCNT' if v == 3 else 'PCNT_2_4', 'play_count'):
            eng.abstract_methods[S + c + '::count'] = self.f_count
        eng.abstract_methods[S + 'id3v2_%d_text_frame::as_str' % v] = self.f_as_str
        self.asked = st.alloc(z3.IntVal(0), 'frame asked')
        op = self.op
        if op in GETS:
            out = st.alloc(Seq(lambda j: z3.IntVal(0), z3.IntVal(1 << 40), 'int', 'array'), 'out')
            return self.this, [Ptr(out, z3.IntVal(0))], None
        if op.startswith('has_') and op != 'has_frame' or op == 'play_count':
            return self.this, [], None
        idl = st.alloc(self.id_struct(eng, st, self.w), 'id')
        if op == 'get_frame':
            j = self.one = z3.Int('one')
            st.assume(z3.And(j >= 0, j < self.n, self.ident(fr.get(eng.A, j)) == self.w))
            st.add_T(j)
        if op == 'text_frame_as_str':
            return self.this, [idl] + [st.alloc(Opaque(x), x) for x in ('dst', 'rsp', 'src')], None
        return self.this, [idl], None

    def m_front(self, eng, st, lv, name, vs, n, args):
        t = eng.load(st, lv)
        if not isinstance(t, Table):
            return None
        eng.oblige(st, 'an entry is there', t.f['a'].len > 0, n)
        z = z3.IntVal(0)
        st.add_T(z)
        self.frame_of(st, lv.path[-1], z)
        return [(st, st.alloc(Tup('pair', {'first': self.ref(st, t.f['a'].get(eng.A, z)), 'second': t.f['b'].get(eng.A, z)}), 'entry'))]

    def f_count(self, eng, st, t, vs, n):
        eng.storev(st, self.asked, self.handle(eng, st, t))
        yield st, z3.Int(fresh_name('play_count'))

    def f_as_str(self, eng, st, t, vs, n):
        eng.storev(st, self.asked, self.handle(eng, st, t))
        yield st, Opaque('text')

    def post(self, eng, st, out, ctx):
        A, n, v, op = eng.A, self.n, self.ver, self.op
        fr, at = self.fr, lambda j: self.fr.get(eng.A, j)
        R = [('the tag is left alone', z3.BoolVal(eng.load(st, self.this) is self.o))]
        kinds = dict(KINDS[v])
        if op == 'play_count':
            k = KINDS[v][1][0]
            n = self.F[k](n)
            if out[0] == 'throw':
                return R + [('throws only unless there is exactly one play count', n != 1)]
            h = eng.load(st, self.asked)
            j = z3.Int(fresh_name('one'))
            return R + [('exactly one play count', n == 1), ('asks the play count of the tag', z3.And(CLS(h) == code(kinds[k]), h > 0, h < (1 << 40)))]
        if op == 'text_frame_as_str':
            T = code(kinds['text_map_'])
            if out[0] == 'throw':
                return R + [('throws only if there is no such text', FA(lambda j: z3.Implies(z3.And(j >= 0, j < n, CLS(at(j)) == T), self.ident(at(j)) != self.w)))]
            h = eng.load(st, self.asked)
            return R + [('asks a text of the tag with the identifier', z3.And(h > 0, h < (1 << 40), CLS(h) == T, self.ident(h) == self.w))]
        if out[0] == 'throw':
            return R + [('does not throw', z3.BoolVal(False))]
        if op in GETS:
            g = st.ghost.get('transformed')
            k, cl = KINDS[v][GETS.index(op)]
            if g is None:
                return R + [('gives the frames of the kind', z3.BoolVal(False))]
            return R + [('gives all frames of the kind', z3.And(g[1], z3.BoolVal(g[0] == k))), ('gives each as it is', z3.And(g[2] == g[3], CLS(g[2]) == code(cl), g[2] > 0, g[2] < (1 << 40)))]
        if op == 'get_frame':
            h = self.handle(eng, st, out[1])
            g = st.ghost.get('found')
            k = self.o.f['frame_map_'].f['b'].get(A, g[1])
            st.add_T(k)
            return R + [('a frame of the tag with the identifier', z3.And(k >= 0, k < n, h == at(k), self.ident(h) == self.w))]
        r = eng.rv(st, out[1])
        if op == 'has_play_count':
            return R + [('the number of play counts', r == self.F[KINDS[v][1][0]](n))]
        w = self.w if op == 'has_frame' else z3.BitVecVal(int.from_bytes(NAMED[op[4:]][v - 2].encode(), 'big'), 32)
        g = st.ghost.get('counted')
        if g is None:
            return R + [('counts', z3.BoolVal(False))]
        return R + [('the number of frames with the identifier', z3.And(r == g[2], g[1] == w, z3.BoolVal(g[0] == 'frame_map_')))]


def lemmas():
    """counting the frames of a kind: the one with e before it exists and is the only one (induction over the frames)"""
    f, kind = z3.Function('f', I, I), z3.Function('kind', I, z3.BoolSort())
    g = z3.Function('g', I, I)
    m, e, i, j = z3.Ints('m e i j')
    step = lambda k: z3.And(f(k + 1) == f(k) + z3.If(kind(k), 1, 0))
    is_at = lambda x, m, e: z3.And(x >= 0, x < m, f(x) == e, kind(x))
    out = [prove('the entries of a kind: none before the first frame', [f(0) == 0], z3.Not(z3.And(e >= 0, e < f(0)))),
           prove('the entries of a kind: one frame more', [m >= 0, step(m), z3.Implies(z3.And(e >= 0, e < f(m)), is_at(g(e), m, e)), e >= 0, e < f(m + 1)],
                 z3.Or(is_at(g(e), m + 1, e), is_at(m, m + 1, e))),
           prove('the count does not decrease', [i >= 0, i <= j, f(i) <= f(j), step(j)], f(i) <= f(j + 1)),
           prove('a frame of the kind is counted once', [i >= 0, i < j, kind(i), kind(j), step(i), f(i + 1) <= f(j)], f(i) != f(j))]
    return out


# the kinds of text in the order of the enumeration, with the identifiers of ID3v2.2 (section 4.2 of the standard; None: there is none);
# the identifiers of the later versions are the names
TEXTS = [x.split('/') for x in ('talb/TAL tbpm/TBP tcom/TCM tcon/TCO tcop/TCR tdat/TDA tdly/TDY tenc/TEN text/TXT tflt/TFT time/TIM tit1/TT1 tit2/TT2 tit3/TT3 '
                                'tkey/TKE tlan/TLA tlen/TLE tmed/TMT toal/TOT tofn/TOF toly/TOL tope/TOA tory/TOR town/ tpe1/TP1 tpe2/TP2 tpe3/TP3 tpe4/TP4 '
                                'tpos/TPA tpub/TPB trck/TRK trda/TRD trsn/ trso/ tsiz/TSI tsrc/TRC tsse/TSS tyer/TYE').split()]


def text_id(ver, x):
    """the kind x has the identifier given by the standard"""
    return [z3.Implies(x == i, (z3.Function('identifier_of', B32, B32)(x)) == int.from_bytes((t if ver == 2 else k.upper()).encode(), 'big'))
            for i, (k, t) in enumerate(TEXTS) if ver > 2 or t]


class Named(Reader):
    """texts asked for or set by name or kind are those with the identifier of the name or kind"""

    def __init__(self, ver, name, sets):
        Reader.__init__(self, ver, name)
        self.sets = sets
        self.label = self.qname + (' [set]' if sets else ' [ask]')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return ('string' in ps[self.op == 'text']) == self.sets

    def pre(self, eng, st):
        self.install(eng, st)
        o, fr, F = self.tag(eng, st, 'tag')
        self.o = o
        self.this = st.alloc(o, 'tag')
        for f in ('text_frame_as_str', 'set_text_frame'):       # under contract themselves
            eng.abstract_methods[self.cls + '::' + f] = lambda eng, st, t, vs, n, f=f: self.f_asked(eng, st, t, vs, n, f)
        names = ('text', 'src', 'add_bom', 'rsp') if self.sets else ('dst', 'rsp', 'src')
        self.args = [Opaque(x) for x in names]
        self.given = Opaque('the text')
        if self.op == 'text':
            self.x = z3.BitVec('which', 32)
            st.assume(z3.ULT(self.x, len(TEXTS)))
        return self.this, ([self.x] if self.op == 'text' else []) + [st.alloc(x, 'argument') for x in self.args], None

    def f_asked(self, eng, st, t, vs, n, f):
        st.ghost['asked'] = st.ghost.get('asked', []) + [(f, t, [eng.rv(st, x) for x in vs])]
        yield st, (None if f == 'set_text_frame' else self.given)

    def post(self, eng, st, out, ctx):
        v, A = self.ver, eng.A
        if out[0] == 'throw':
            if self.op == 'text' and v == 2:
                return [('refused only where ID3v2.2 has no such text', z3.Or(*[self.x == i for i, (k, t) in enumerate(TEXTS) if not t])),
                        ('nothing is asked', z3.BoolVal('asked' not in st.ghost))]
            return [('does not throw', z3.BoolVal(False))]
        a = st.ghost.get('asked', [])
        if len(a) != 1:
            return [('asked once', z3.BoolVal(False))]
        f, t, vs = a[0]
        n = 3 if v == 2 else 4
        w = z3.Concat(*[vs[0].f['id_'].get(A, A.const(i)) for i in range(n)])
        of = lambda x: int.from_bytes(x.encode(), 'big')
        R = [('the tag itself', z3.BoolVal(t.same(self.this))), ('set or asked for', z3.BoolVal(f == ('set_text_frame' if self.sets else 'text_frame_as_str')))]
        if self.op == 'text':
            T = [x if v == 2 else k.upper() for k, x in TEXTS]
            R.append(('the identifier of the kind', z3.And(*[z3.Implies(self.x == i, w == of(x)) if x else self.x != i for i, x in enumerate(T)])))
        else:
            R.append(('the identifier of the name', w == of(NAMED[self.op][v - 2])))
        if not self.sets:
            x = eng.rv(st, out[1])
            R.append(('the text is given back', z3.BoolVal(x is self.given)))
        got = vs[1:]
        if self.sets and v == 4:
            got = got[:2] + got[3:]                     # the encoding of the tag
        return R + [('what is asked is handed on', z3.BoolVal(len(got) == len(self.args) and all(x is y for x, y in zip(got, self.args))))]

    def witness(self, ev, ctx):
        # a text of the kind is set in a new tag, and again, and asked for
        a = 128 + ev(self.x) % len(TEXTS) if self.op == 'text' else list(NAMED).index(self.op)
        return bytes([self.ver - 2, 0, 0, 13, a, 1, 1, 13, a, 2, 0]).hex()


class Ident(Contract):
    """frame identifiers: made of their characters or of the kind of text, compared and given back"""
    mode = 'bv'

    def __init__(self, n, op):
        self.n, self.op = n, op
        self.cls = S + 'frame_id%d' % n
        self.qname = S + 'operator' + op if op in ('==', '!=') else self.cls + '::' + ('frame_id%d' % n if op in ('chars', 'bytes', 'text', 'kind') else op)
        self.label = self.qname + (' (%s)' % (self.cls if op in ('==', '!=') else {'chars': 'characters', 'bytes': 'bytes', 'text': 'a text', 'kind': 'a kind of text'}.get(op, '')) if op in ('==', '!=', 'chars', 'bytes', 'text', 'kind') else '')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        if self.op in ('==', '!='):
            return len(ps) == 2 and 'frame_id%d' % self.n in ps[0]
        return {'chars': len(ps) == self.n and self.n > 1, 'bytes': len(ps) == 1 and ps[0].startswith('const unsigned char *'), 'text': len(ps) == 1 and ps[0].startswith('const char *'),
                'kind': len(ps) == 1 and 'text_frames' in ps[0]}.get(self.op, True)

    def of(self, eng, st, name):
        o = eng.any_struct(st, eng.record(self.cls), name)
        bs = [z3.BitVec('%s%d' % (name, i), 8) for i in range(self.n)]
        return o.set('id_', seq_const(eng.A, bs)), bs

    def pre(self, eng, st):
        self.o, self.b = self.of(eng, st, 'id')
        self.this = st.alloc(self.o, 'id')
        self.c = [z3.BitVec('c%d' % i, 8) for i in range(self.n)]
        if self.op in ('==', '!='):
            self.o2, self.b2 = self.of(eng, st, 'other')
            return None, [self.this, st.alloc(self.o2, 'other')], None
        if self.op == 'chars':
            return self.this, list(self.c), None
        if self.op in ('bytes', 'text'):
            return self.this, [Ptr(st.alloc(seq_const(eng.A, self.c), 'chars'), eng.A.const(0))], None
        if self.op == 'kind':
            self.x = z3.BitVec('which', 32)
            st.assume(z3.ULT(self.x, len(TEXTS)))
            return self.this, [self.x], None
        if self.op == 'copy':
            self.buf = st.alloc(seq_const(eng.A, [z3.BitVec('b%d' % i, 8) for i in range(self.n)]), 'buf')
            return self.this, [Ptr(self.buf, eng.A.const(0))], None
        return self.this, [], None

    def post(self, eng, st, out, ctx):
        A, n = eng.A, self.n
        if out[0] == 'throw':
            if self.op == 'kind' and n == 3:
                return [('refused only where ID3v2.2 has no such text', z3.Or(*[self.x == i for i, (k, t) in enumerate(TEXTS) if not t]))]
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, self.this)
        got = lambda i: o.f['id_'].get(A, A.const(i))
        both = z3.And(*[x == y for x, y in zip(self.b, self.b2)]) if self.op in ('==', '!=') else None
        if self.op == '==':
            return [('equal if all characters are', eng.rv(st, out[1]) == both)]
        if self.op == '!=':
            return [('different if a character is', eng.rv(st, out[1]) == z3.Not(both))]
        if self.op in ('chars', 'bytes', 'text'):
            return [('character %d' % i, got(i) == self.c[i]) for i in range(n)] + [('experimental if X, Y or Z comes first', o.f['experimental_'] == z3.Or(*[self.c[0] == ord(x) for x in 'XYZ']))]
        if self.op == 'kind':
            w = z3.Concat(*[got(i) for i in range(n)])
            R = []
            for i, (k, t) in enumerate(TEXTS):
                t = t if n == 3 else k.upper()
                R.append(('%s is %s' % (k, t), z3.Implies(self.x == i, w == int.from_bytes(t.encode(), 'big'))) if t else ('%s is refused' % k, self.x != i))
            return R + [('not experimental', z3.Not(o.f['experimental_']))]
        kept = [('unchanged', z3.BoolVal(o is self.o))]
        if self.op == 'copy':
            x = eng.load(st, self.buf)
            p = eng.rv(st, out[1])
            return kept + [('character %d' % i, x.get(A, A.const(i)) == self.b[i]) for i in range(n)] + [('the end is returned', p.off == n)]
        if self.op == 'null':
            return kept + [('no characters', eng.rv(st, out[1]) == z3.And(*[x == 0 for x in self.b]))]
        if self.op == 'text_frame':
            return kept + [('begins with T', eng.rv(st, out[1]) == (self.b[0] == ord('T')))]
        if self.op == 'experimental':
            return kept + [('as made', eng.rv(st, out[1]) == self.o.f['experimental_'])]
        x = eng.rv(st, out[1])
        return kept + [('%d characters' % n, x.len == n)] + [('character %d' % i, x.get(A, A.const(i)) == self.b[i]) for i in range(n)]

    def witness(self, ev, ctx):
        if self.op == 'kind':
            a = 128 + ev(self.x) % len(TEXTS)
            return bytes([self.n == 4, 0, 0, 13, a, 1, 0, 13, a, 2, 0]).hex()


CONTRACTS = [(TU % v, Index(v)) for v in (2, 3, 4)]
CONTRACTS += [(TU % (n if n == 2 else 3), Ident(n + 1 if n == 2 else 4, op)) for n in (2, 3) for op in ('chars', 'bytes', 'text', 'kind', '==', '!=', 'copy', 'null', 'text_frame', 'experimental', 'as_string')]
for v in (2, 3, 4):
    K = [c for _, c in KINDS[v]] + ['id3v2_%d_frame' % v]
    CONTRACTS += [(TU % v, Edit(v, op, c)) for op in ('push_back', 'insert', 'assign') for c in K]
    CONTRACTS += [(TU % v, Edit(v, op)) for op in ('erase', 'erase range', 'exchange', 'exchange between tags')]
    CONTRACTS += [(TU % v, Adds(v, op)) for op in ('add_comment', 'add_user_defined_text', 'set_text_frame', 'delete_frame', 'parse_frame')]
    CONTRACTS += [(TU % v, Copy(v, op, e, w)) for op in ('copy', 'assignment') for e in (False, True)[:1 + (v > 2)] for w in ((False, True) if v > 2 and op == 'assignment' else (False,))]
    CONTRACTS += [(TU % v, Reader(v, op)) for op in ['has_frame', 'get_frame', 'text_frame_as_str', 'has_play_count', 'play_count'] + GETS + ['has_' + k for k in NAMED]]
    CONTRACTS += [(TU % v, Named(v, k, s)) for k in list(NAMED) + ['text'] for s in (False, True)]
    MOVES = ['++', 'post++', '--', 'post--', '+=', '-=', '+', '-', '*', '->']
    CONTRACTS += [(TU % v, Walk(v, c, op)) for c in ('frame_iterator', 'const_frame_iterator') for op in MOVES] + [(TU % v, Walk(v, 'frame_iterator', '[]'))]
    CONTRACTS += [(TU % v, Walk(v, 'frame_iterator_base', op)) for op in ('index', '-', '==', '!=', '<')]
    CONTRACTS += [(TU % v, Walk(v, 'tag', op, c)) for op in ('begin', 'end') for c in (False, True)] + [(TU % v, Walk(v, 'tag', op, True)) for op in ('cbegin', 'cend')]
    CONTRACTS += [(TU % v, Walk(v, 'proxy', op)) for op in ('->', 'frame')]
    CONTRACTS += [(TU % v, New(v, e)) for e in ((0, 1, 2) if v == 3 else (0,))]
    CONTRACTS += [(TU % v, Clone(v, c)) for c in CLONES[v]]
SEARCH_S = 8
ASSUMPTIONS = [
    'frames are known by numbers with a class, an identifier and contents; a clone has all three of its original, which is proved of the clone() of each of the 28 frame classes (Clone)',
    'COM, COMM, TXX, TXXX, CNT, PCNT, POP, POPM frames have the identifier of their class (their constructors fix it); other classes have any identifier',
    'the registered text parsers return a text frame, and the generic ones a frame of none of the four indexed kinds or of the kind of its identifier, with the identifier given (the create functions are under contract in P16)',
    'delete_frame is asked for a kind of text the version has (the others are refused, which is proved of the identifiers)',
    'a tag has less than 2^40 frames',
    'the registered parsers and encryption methods are opaque values: a copy has those of the original',
    'get_frame, text_frame_as_str and play_count are asked for a frame that is there (what they throw otherwise is in the executable contract)',
    'an assignment of a tag to itself is the branch in the source and leaves the tag as it is',
    'a frame counts as experimental as its identifier says (so its constructors make it)',
    'the positions handed to insert, erase, assign and exchange are positions of the tag, and positions are not moved outside it',
]
TRUSTED = ['std::vector, unique_ptr, shared_ptr by model; the multimaps as the list of the entries made: find gives one with the key if there is one, count how many',
           'std::transform visits the elements in order, each once (as a loop whose body is the function passed, executed from the source)']
