"""P17: a frame is written as a header that describes exactly the bytes that follow."""
import os
import z3
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.cast import Unsupported
from cxxvc import models as M
from contracts.p16 import argument, WRAPPED

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P17.cc')
I = z3.IntSort()
S = 'scribbu::'
CAP = 1 << 40


def bv8(x):
    return z3.BitVecVal(x, 8)


def If(c, a, b):
    return z3.If(c, bv8(a), bv8(b))


def frame(eng, st, cls, lock=True):
    """an arbitrary frame"""
    o = eng.any_struct(st, eng.record(S + cls), 'frame')
    for k in o.f:
        if k in ('enc_method_', 'group_id_'):
            o = o.set(k, Opt('optional', {'has': z3.Bool(k), 'val': z3.BitVec(k + 'value', 8)}))
        elif k == 'data_len_indicator_':
            o = o.set(k, Opt('optional', {'has': z3.Bool(k), 'val': z3.BitVec(k + 'value', 64) if eng.A.mode == 'bv' else z3.Int(k + 'value')}))
    c = [k for k in o.f if k.split('@')[0] == 'compressed_']
    for k in c[1:]:
        st.assume(o.f[k] == o.f[c[0]])          # both copies are set from the same argument (P16)
    return o


class Header(Contract):
    """identifier, length of what follows, flags and the additional fields they announce"""
    mode = 'bv'

    def __init__(self, ver, case=None):
        self.ver, self.case = ver, case         # case: the preservation flags, or any
        self.cls = 'id3v2_%d_frame' % ver
        self.qname = S + self.cls + '::write_header'
        if case is not None:
            self.label = '%s [preservation flags %d]' % (self.qname, case)

    def pre(self, eng, st):
        o = frame(eng, st, self.cls)
        if self.case is not None:
            for k, b in (('tap_', self.case & 1), ('fap_', self.case >> 1)):
                v = o.f[k]
                st.assume((v == 1) if b else (v != 1))
        self.o = o
        lv = st.alloc(o, 'frame')
        os = st.alloc(M.new_ostream(eng, st), 'os')
        self.cb, self.dl = z3.BitVec('cb_payload', 64), z3.BitVec('dlind', 64)
        for x in (self.cb, self.dl):
            st.assume(z3.ULT(x, z3.BitVecVal(CAP, 64)))
        if self.ver == 2:
            return lv, [os, self.cb], os
        # zlib: what is compressed is at most slightly longer
        return lv, [os, self.cb, self.dl], os

    def expected(self, eng):
        """list of (condition, bytes), the size declared, the limit"""
        o, A = self.o.f, eng.A
        idb = [o['id_'].f['id_'].get(A, z3.BitVecVal(i, 64)) for i in range(3 if self.ver == 2 else 4)]
        byte = lambda x, k: z3.Extract(8 * k + 7, 8 * k, x)
        safe = lambda x, k: z3.Concat(z3.BitVecVal(0, 1), z3.Extract(7 * k + 6, 7 * k, x))
        one = lambda c, n: z3.If(c, z3.BitVecVal(n, 64), z3.BitVecVal(0, 64))
        if self.ver == 2:
            return [(True, idb), (True, [byte(self.cb, k) for k in (2, 1, 0)])], self.cb, 0xffffff
        enc, gid = o['enc_method_'].f, o['group_id_'].f
        cmp_ = o['compressed_']
        tap, fap, ro = o['tap_'] == 1, o['fap_'] == 1, o['read_only_'] == 1
        if self.ver == 3:
            sz = self.cb + one(cmp_, 4) + one(enc['has'], 1) + one(gid['has'], 1)
            f0 = If(tap, 128, 0) | If(fap, 64, 0) | If(ro, 32, 0)
            f1 = If(cmp_, 128, 0) | If(enc['has'], 64, 0) | If(gid['has'], 32, 0)
            return [(True, idb), (True, [byte(sz, k) for k in (3, 2, 1, 0)]), (True, [f0, f1]), (cmp_, [byte(self.dl, k) for k in (3, 2, 1, 0)]),
                    (enc['has'], [enc['val']]), (gid['has'], [gid['val']])], sz, 0xffffffff
        dli = o['data_len_indicator_'].f['has']
        sz = self.cb + one(dli, 4) + one(enc['has'], 1) + one(gid['has'], 1)
        f0 = If(tap, 64, 0) | If(fap, 32, 0) | If(ro, 16, 0)
        f1 = If(gid['has'], 64, 0) | If(cmp_, 8, 0) | If(enc['has'], 4, 0) | If(o['unsynchronised_'], 2, 0) | If(dli, 1, 0)
        return [(True, idb), (True, [safe(sz, k) for k in (3, 2, 1, 0)]), (True, [f0, f1]), (gid['has'], [gid['val']]), (enc['has'], [enc['val']]),
                (dli, [safe(self.dl, k) for k in (3, 2, 1, 0)])], sz, 0xfffffff

    NAMES = ['identifier', 'declared length', 'flags', 'additional fields', 'additional fields', 'additional fields']

    def too_large(self, sz, lim):
        L = z3.BitVecVal(lim, 64)
        r = z3.UGT(sz, L)
        if self.ver == 3:
            r = z3.Or(r, z3.UGT(self.dl, L))
        elif self.ver == 4:
            r = z3.Or(r, z3.And(self.o.f['data_len_indicator_'].f['has'], z3.UGT(self.dl, L)))
        return r

    def post(self, eng, st, out, os):
        parts, sz, lim = self.expected(eng)
        big = self.too_large(sz, lim)
        if out[0] == 'throw':
            if self.ver == 3:
                big = z3.Or(big, z3.UGT(self.dl, z3.BitVecVal(lim, 64)))
            return [('refused only if too large', big)]
        A, w = eng.A, eng.load(st, os).f['out']
        g = [('too large is refused', z3.Not(big))]
        off = z3.BitVecVal(0, 64)
        for nm, (c, bs) in zip(self.NAMES, parts):
            for i, b in enumerate(bs):
                e = w.get(A, off + i) == b
                g.append((nm, e if c is True else z3.Implies(c, e)))
            k = z3.BitVecVal(len(bs), 64)
            off = off + (k if c is True else z3.If(c, k, z3.BitVecVal(0, 64)))
        g += [('number of bytes written', w.len == off), ('number of bytes returned', eng.rv(st, out[1]) == off)]
        return g

    def witness(self, ev, ctx):
        n = ev(self.cb)
        o = self.o.f
        if self.ver == 2:
            m = 0
        else:
            m = (1 if ev(o['tap_']) == 1 else 0) | (2 if ev(o['fap_']) == 1 else 0) | (4 if ev(o['read_only_']) == 1 else 0) | \
                (16 if ev(o['group_id_'].f['has']) else 0) | (32 if ev(o['compressed_']) else 0)
            if self.ver == 4:
                m |= (64 if ev(o['unsynchronised_']) else 0) | (128 if ev(o['data_len_indicator_'].f['has']) else 0)
        return '%02x%02x%08x' % (self.ver, m, min(n or 0, 0x10000001))


class Cached(Contract):
    """an arbitrary frame with its serialized forms, plain and unsynchronised"""
    mode = 'int'

    def setup(self, eng, st):
        A = eng.A
        o = frame(eng, st, self.cls)
        self.old = []
        for i in range(2):
            n = z3.Int('cached_size%d' % i)
            st.assume(z3.And(n >= 0, n < CAP))
            self.old.append(seq_sym(A, 'cached%d' % i, n, 8, 'vector'))
        self.o = o = o.set('cache_', Tup('objects', {'0': self.old[0], '1': self.old[1]})).set('dirty_', z3.Bool('dirty'))
        return st.alloc(o, 'frame')

    def cache(self, eng, st, lv, i):
        return eng.load(st, lv).f['cache_'].f[str(i)]


def same(A, s, n, get):
    return [z3.simplify(s.len) == n, FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), s.get(A, j) == get(j)))]


class Fresh(Cached):
    """unless clean: header, then contents (compressed if so flagged); the unsynchronised form of the same; the number of false syncs"""

    def __init__(self, ver):
        self.ver = ver
        self.cls = 'id3v2_2_frame' if ver == 2 else 'id3v2_3_plus_frame'
        self.qname = S + self.cls + '::ensure_cached_data_is_fresh'

    def pre(self, eng, st):
        lv = self.lv = self.setup(eng, st)
        self.last = z3.BoolVal(False) if self.ver == 2 else z3.Bool('last_no_pad')
        B = z3.BitVecSort(8)
        self.n, self.content = z3.Int('content_size'), z3.Function('content', I, B)
        self.zn, self.zipped = z3.Int('compressed_size'), z3.Function('compressed', I, B)
        self.hn, self.head = z3.Function('header_size', I, I, I), z3.Function('header', I, I, I, B)
        self.status = z3.BitVec('zlib_status', 32)
        st.assume(z3.And(self.n >= 0, self.n < CAP, self.zn >= 0, self.zn < CAP))
        zip_ = z3.BoolVal(False) if self.ver == 2 else self.o.f['compressed_']
        self.zip = zip_
        # the plain form
        self.pn = z3.If(zip_, self.zn, self.n)
        self.h = self.hn(self.pn, self.n)
        st.assume(z3.And(self.h >= 6, self.h < 64))
        self.N = self.h + self.pn
        self.W = lambda j: z3.If(j < self.h, self.head(j, self.pn, self.n), z3.If(zip_, self.zipped(j - self.h), self.content(j - self.h)))
        self.un = {b: z3.Int('unsynchronised_size%d' % b) for b in (0, 1)}
        self.U = {b: z3.Function('unsynchronised%d' % b, I, B) for b in (0, 1)}
        for b in (0, 1):
            st.assume(z3.And(self.un[b] >= self.N, self.un[b] < CAP * 4))
        self.false = z3.Int('false_syncs')
        am = eng.abstract_methods
        am[S + self.cls + '::serialize'] = self.serialize
        am[S + self.cls + '::write_header'] = self.header
        am[S + 'detail::count_syncs'] = self.count
        am[S + 'detail::unsynchronise'] = self.unsync
        am['compressBound'] = self.bound
        am['compress'] = self.compress
        return lv, [] if self.ver == 2 else [self.last], lv

    def serialize(self, eng, st, t, vs, n):
        M.emit(eng, st, eng.rv(st, vs[0]) if not isinstance(vs[0], LV) else vs[0], Seq(lambda j: self.content(j), self.n, 8, 'string'))
        yield st, self.n

    def header(self, eng, st, t, vs, n):
        """contract of write_header (Header): at least six bytes determined by its arguments, or an exception"""
        cb, dl = eng.rv(st, vs[1]), eng.rv(st, vs[2]) if len(vs) > 2 else self.n
        s2 = st.clone()
        yield s2, Throw('std::runtime_error')
        h = self.hn(cb, dl)
        st.assume(z3.And(h >= 6, h < 64))
        M.emit(eng, st, vs[0], Seq(lambda j: self.head(j, cb, dl), h, 8, 'string'))
        yield st, h

    def bound(self, eng, st, t, vs, n):
        r = z3.Int('compress_bound')
        st.assume(z3.And(r >= 0, r < 2 * CAP))
        self.cbound = (eng.rv(st, vs[0]), r)
        yield st, r

    def compress(self, eng, st, t, vs, n):
        """zlib: compress the source into a buffer of at least the bound for it"""
        A = eng.A
        dst, pl, src, cb = (eng.rv(st, v) for v in vs)
        room = eng.load(st, pl.lv)
        eng.oblige(st, 'what is compressed is the contents', cb == self.n, n, 'postcondition')
        b = M.mem_read(eng, st, src, cb, n, 'bytes to compress')
        eng.oblige(st, 'what is compressed is the contents', FA(lambda j: z3.Implies(z3.And(j >= 0, j < cb), b.get(A, j) == self.content(j))), n, 'postcondition')
        eng.oblige(st, 'room for the compressed form', z3.And(z3.BoolVal(hasattr(self, 'cbound')), room >= self.cbound[1], self.cbound[0] >= self.n)
                   if hasattr(self, 'cbound') else z3.BoolVal(False), n, 'postcondition')
        st.assume(z3.And(self.zn <= room))
        for s2, c in eng.fork(st, self.status == 0):
            if c:
                M.mem_write(eng, s2, dst, Seq(lambda j: self.zipped(j), self.zn, 8, 'array'), self.zn, n, 'room for the compressed form')
                eng.storev(s2, pl.lv, self.zn)
            yield s2, self.status

    def whole(self, eng, st, a, b, n):
        """the range is the plain form"""
        A = eng.A
        a, b = eng.rv(st, a), eng.rv(st, b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv)):
            raise Unsupported('range of something else')
        s = eng.load(st, a.lv)
        eng.oblige(st, 'all of the plain form', z3.And(b.off - a.off == self.N, a.off >= 0, b.off <= s.len), n, 'postcondition')
        eng.oblige(st, 'the plain form', FA(lambda j: z3.Implies(z3.And(j >= 0, j < self.N), s.get(A, a.off + j) == self.W(j))), n, 'postcondition')

    def count(self, eng, st, t, vs, n):
        if len(vs) != 3:
            raise Unsupported('pairs of a word')
        self.whole(eng, st, vs[0], vs[1], n)
        only = z3.simplify(eng.to_bool(eng.rv(st, vs[2])))
        eng.oblige(st, 'only false syncs are counted', only, n, 'postcondition')
        st.assume(z3.And(self.false >= 0, self.false < CAP))
        yield st, self.false

    def unsync(self, eng, st, t, vs, n):
        self.whole(eng, st, vs[1], vs[2], n)
        o = vs[0] if isinstance(vs[0], BackInserter) else eng.rv(st, vs[0])
        last = eng.to_bool(eng.rv(st, vs[3])) if len(vs) > 3 else z3.BoolVal(False)
        old = eng.load(st, o.lv)
        ln = z3.If(last, self.un[1], self.un[0])
        add = Seq(lambda j: z3.If(last, self.U[1](j), self.U[0](j)), ln, 8, 'vector')
        eng.storev(st, o.lv, seq_concat(eng.A, old, add))
        yield st, ln

    def post(self, eng, st, out, lv):
        A, o = eng.A, eng.load(st, lv)
        was = self.o.f['dirty_']
        if out[0] == 'throw':
            return [('a clean frame does not throw', was), ('remains to be serialized', o.f['dirty_'])]
        c0, c1 = self.cache(eng, st, lv, 0), self.cache(eng, st, lv, 1)
        st.add_T(self.h)
        g = [('clean afterwards', z3.Not(o.f['dirty_']))]
        for c, i in ((c0, 0), (c1, 1)):
            for x in same(A, c, self.old[i].len, lambda j, i=i: self.old[i].get(A, j)):
                g.append(('a clean frame keeps its forms', self.guard(z3.Not(was), x)))
        for x in same(A, c0, self.N, self.W):
            g.append(('plain form: header, then contents', self.guard(was, x)))
        for b in (0, 1):
            for x in same(A, c1, self.un[b], lambda j, b=b: self.U[b](j)):
                g.append(('unsynchronised form', self.guard(z3.And(was, self.last == z3.BoolVal(bool(b))), x)))
        back = self.W(self.N - 1)
        k = o.f['num_false_syncs_']
        g.append(('number of false syncs', z3.Implies(was, k == self.false + z3.If(z3.And(self.last, back == 0xff), 1, 0))))
        g.append(('number of false syncs kept', z3.Implies(z3.Not(was), k == self.o.f['num_false_syncs_'])))
        return g

    @staticmethod
    def guard(c, x):
        return FA(lambda j: z3.Implies(c, x.fn(j))) if isinstance(x, FA) else z3.Implies(c, x)

    def witness(self, ev, ctx):
        n = ev(self.n)
        if n is None or n > 200:
            return None
        m = 0 if self.ver == 2 else (32 if ev(self.zip) else 0)
        return '%02x%02x%08x' % (self.ver, m, n) + ''.join('%02x' % ev(self.content(z3.IntVal(i))) for i in range(n))

    def small(self, ctx):
        return [self.n <= 3, self.n <= 12]


class Use(Cached):
    """write, serialized_size, needs_unsynchronisation: the form asked for, as it is once fresh"""

    def __init__(self, ver, fn):
        self.ver, self.fn = ver, fn
        self.cls = 'id3v2_2_frame' if ver == 2 else 'id3v2_3_plus_frame'
        self.qname = S + self.cls + '::' + fn

    def pre(self, eng, st):
        A = eng.A
        lv = self.lv = self.setup(eng, st)
        self.now = []
        for i in range(2):
            n = z3.Int('form_size%d' % i)
            st.assume(z3.And(n >= 6, n < CAP * 4))
            self.now.append(seq_sym(A, 'form%d' % i, n, 8, 'vector'))
        self.false = z3.Int('false_syncs')
        self.fresh = st.alloc(z3.IntVal(0), 'made_fresh')
        self.lasts = st.alloc(z3.BoolVal(False), 'last_given')
        eng.abstract_methods[S + self.cls + '::ensure_cached_data_is_fresh'] = self.ensure
        self.un, self.last = z3.Bool('unsync'), z3.Bool('last_no_pad')
        if self.fn == 'write':
            self.os = st.alloc(M.new_ostream(eng, st), 'os')
            return lv, [self.os, self.un], lv
        return lv, ([self.un] if self.fn == 'serialized_size' else []) + [self.last], lv

    def ensure(self, eng, st, t, vs, n):
        """contract of ensure_cached_data_is_fresh (Fresh)"""
        s2 = st.clone()
        yield s2, Throw('std::runtime_error')
        o = eng.load(st, self.lv)
        eng.storev(st, self.lv, o.set('cache_', Tup('objects', {'0': self.now[0], '1': self.now[1]})).set('dirty_', z3.BoolVal(False)).set('num_false_syncs_', self.false))
        eng.storev(st, self.fresh, eng.load(st, self.fresh) + 1)
        if vs:
            eng.storev(st, self.lasts, eng.to_bool(eng.rv(st, vs[0])))
        yield st, None

    def post(self, eng, st, out, lv):
        A = eng.A
        if out[0] == 'throw':
            return [('refused only if it cannot be serialized', z3.BoolVal(out[1].ty == 'std::runtime_error'))]
        r = eng.rv(st, out[1])
        g = [('taken from the current forms', eng.load(st, self.fresh) >= 1)]
        if self.fn == 'needs_unsynchronisation':
            g.append(('number of false syncs', r == self.false))
        else:
            g.append(('size of the form asked for', r == z3.If(self.un, self.now[1].len, self.now[0].len)))
        if self.ver != 2 and self.fn != 'write':
            g.append(('the end of the tag is passed on', eng.load(st, self.lasts) == self.last))
        if self.fn == 'write':
            w = eng.load(st, self.os).f['out']
            for b in (0, 1):
                c = self.un == z3.BoolVal(bool(b))
                for x in same(A, w, self.now[b].len, lambda j, b=b: self.now[b].get(A, j)):
                    g.append(('the form asked for is written', Fresh.guard(c, x)))
        return g

    def witness(self, ev, ctx):
        return '%02x0000000004ffe0ff00' % self.ver


class Dirty(Cached):
    """the forms are dropped once they are out of date"""

    def __init__(self, ver):
        self.ver = ver
        self.cls = 'id3v2_2_frame' if ver == 2 else 'id3v2_3_plus_frame'
        self.qname = S + self.cls + '::dirty'

    def pre(self, eng, st):
        self.f = z3.Bool('f')
        lv = self.setup(eng, st)
        return lv, [self.f], lv

    def post(self, eng, st, out, lv):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, lv)
        A = eng.A
        g = [('flag', o.f['dirty_'] == self.f)]
        for i in range(2):
            for x in same(A, self.cache(eng, st, lv, i), self.old[i].len, lambda j, i=i: self.old[i].get(A, j)):
                g.append(('clean: forms kept', Fresh.guard(z3.Not(self.f), x)))
        return g


class Change(Contract):
    """a changed frame is serialized again"""
    mode = 'int'

    def __init__(self, cls, fn, base, ver):
        self.cls, self.fn, self.base, self.ver = cls, fn, base, ver
        self.qname = S + cls + '::' + fn
        self.label = self.qname

    def pick(self, f):
        return self.params(f) > 0 or self.fn == 'inc'

    @staticmethod
    def params(f):
        return sum(c.get('kind') == 'ParmVarDecl' for c in f.get('inner', []))

    def pre(self, eng, st):
        o = frame(eng, st, self.cls).set('dirty_', z3.BoolVal(False))
        lv = st.alloc(o, 'frame')
        am = eng.abstract_methods
        if self.base:
            am[S + self.base + '::' + self.fn] = lambda eng, st, t, vs, n: iter([(st, z3.Bool('changed'))])
        am[S + 'convert_encoding'] = self.convert
        for x in ('encshim', 'encshim2'):
            am[S + self.cls + '::' + x] = lambda eng, st, t, vs, n, x=x: iter([(st, z3.BitVec(x, 8 if x == 'encshim2' else 32))])
        fn = [f for f in eng.tu.find(self.qname) if self.pick(f)][0]
        args = []
        for c in fn['inner']:
            if c.get('kind') == 'ParmVarDecl':
                t = c['type'].get('desugaredQualType') or c['type']['qualType']
                try:
                    v = argument(eng, st, t, c.get('name', 'arg'))
                except Unsupported:
                    v = Opaque('argument')
                args.append(st.alloc(v, 'arg') if '&' in t else v)
        return lv, args, lv

    def convert(self, eng, st, t, vs, n):
        s2 = st.clone()
        yield s2, Throw('std::runtime_error')
        k = eng.A.fresh('converted_size')
        st.assume(z3.And(k >= 0, k < CAP))
        yield st, seq_sym(eng.A, fresh_name('converted'), k, 8, 'vector')

    def post(self, eng, st, out, lv):
        d = eng.load(st, lv).f['dirty_']
        if out[0] == 'throw':
            return []
        return [('serialized again when next written', d)]

    def witness(self, ev, ctx):
        return '%02x0000000000' % (self.ver + 0x10)


CONTRACTS = [(TU, Header(2)), (TU, Header(3))] + [(TU, Header(4, c)) for c in range(4)]
CONTRACTS += [(TU, Fresh(v)) for v in (2, 3)] + [(TU, Dirty(v)) for v in (2, 3)]
CONTRACTS += [(TU, Use(v, f)) for v in (2, 3) for f in ('write', 'serialized_size', 'needs_unsynchronisation')]
for _v, _p, _q, _x in ((2, 'CNT', 'POP', 'XTG'), (3, 'PCNT', 'POPM', 'XTAG'), (4, 'PCNT_2_4', 'POPM_2_4', 'XTAG_2_4')):
    CONTRACTS += [(TU, Change(_p, f, 'play_count', _v)) for f in ('count', 'inc')]
    CONTRACTS += [(TU, Change(_q, f, 'popularimeter', _v)) for f in ('count', 'inc', 'rating')]
    CONTRACTS += [(TU, Change(_x, f, 'tag_cloud', _v)) for f in ('add_key', 'add_value', 'merge', 'update', 'reset')]
    CONTRACTS.append((TU, Change('id3v2_%d_text_frame' % _v, 'set', None, _v)))
SEARCH_S = 5
ASSUMPTIONS = ['contents are shorter than 2^40 bytes', 'both copies of the compression flag agree (they are set from one argument: proved under P16)',
               'zlib: compress() of n bytes into at least compressBound(n) bytes yields the compressed form or an error status',
               'contents are changed through the members of the frame classes under contract only, not through a reference to a base class',
               'the unsynchronised form and the number of false syncs are those of the contracts of P02']
