"""P19: a written tag has exactly the length its header declares."""
import os
import z3
from cxxvc.cast import Unsupported
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc.spec import positions, prove

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P18v%d.cc')
I = z3.IntSort()
B8 = z3.BitVecSort(8)
S = 'scribbu::'
LIMIT = 1 << 28


def A_fresh(name):
    return z3.Int(fresh_name(name))


class Frames:
    """invariants: amounts accumulated over the frames so far; the output so far is the expected one"""

    def __init__(self, c):
        self.c = c

    def setup(self, eng, inst, entry, head, modified):
        c = self.c
        inst.phases = [[]]
        inst.extra_T = []

        def add(name, f, ar=0):
            x = (name, f, ar)
            inst.cands.append(x)
            inst.phases[0].append(x)
        ps = positions(head, modified)
        vs = [v for v in ps if v.mod]
        for v in vs:
            e = z3.simplify(v.fn(entry))
            add('%s >= entry' % v.name, lambda st, v=v, e=e: v.fn(st) >= e)
            add('%s <= entry' % v.name, lambda st, v=v, e=e: v.fn(st) <= e)
            add('%s >= 0' % v.name, lambda st, v=v: v.fn(st) >= 0)
            add('%s <= n' % v.name, lambda st, v=v: v.fn(st) <= c.n)
            add('%s < n' % v.name, lambda st, v=v: v.fn(st) < c.n)
            add('%s <= padding' % v.name, lambda st, v=v: v.fn(st) <= c.pad)
            add('%s <= total' % v.name, lambda st, v=v: v.fn(st) <= c.total)
            inst.measures.append((v.name, lambda st, v=v: v.fn(st)))
            inst.measures.append(('padding - %s' % v.name, lambda st, v=v: c.pad - v.fn(st)))
            inst.measures.append(('n - %s' % v.name, lambda st, v=v: c.n - v.fn(st)))
            inst.extra_T += [v.fn(head), v.fn(head) + 1]
            for u in vs:
                if u is v:
                    continue
                eu = z3.simplify(u.fn(entry))

                def fold(st, u=u, v=v, e=e, eu=eu):
                    st.add_T(u.fn(st))
                    return v.fn(st) - e == c.F(u.fn(st)) - c.F(eu)
                add('%s grows by the frames up to %s' % (v.name, u.name), fold)
                add('%s grows with %s' % (v.name, u.name), lambda st, u=u, v=v, e=e, eu=eu: v.fn(st) - e == u.fn(st) - eu)
                add('%s shrinks with %s' % (v.name, u.name), lambda st, u=u, v=v, e=e, eu=eu: v.fn(st) + u.fn(st) == e + eu)
        for g in c.more(eng, entry, head, vs):
            add(*g)


class Tag(Contract):
    """The frames are known by their numbers.  SZ(i, u): bytes of frame i written with or without
    unsynchronisation; F(i): where it goes; EXP(j): byte j of the tag."""
    mode = 'int'
    unsync_case = None

    def __init__(self, ver, fn, ext=False):
        self.ver, self.ext, self.fn = ver, ext, fn
        self.cls = S + 'id3v2_%d_tag' % ver
        self.qname = self.cls + '::' + fn
        self.label = self.qname + (' [%sextended header]' % ('' if ext else 'no ') if ver > 2 else '')

    def pre(self, eng, st):
        A = eng.A
        A.lazy_value = True
        self.eng = eng
        self.n, self.pad = z3.Int('number_of_frames'), z3.Int('padding')
        self.u = z3.Bool('unsync')
        o = eng.any_struct(st, eng.record(self.cls), 'tag')
        o = o.set('frames_', Seq(lambda j: j, self.n, 'int', 'vector')).set('padding_', self.pad)
        o = o.set('unsync_', Opt('optional', {'has': z3.Bool('unsynchronised_known'), 'val': z3.Bool('unsynchronised')}))
        st.assume(z3.And(self.n >= 0, self.n < (1 << 40), self.pad >= 0, self.pad < (1 << 62)))
        self.SZ = z3.Function('frame_size', I, z3.BoolSort(), I)
        self.NU = z3.Function('false_syncs', I, z3.BoolSort(), I)
        self.F, self.EXP = z3.Function('frame_offset', I, I), z3.Function('expected', I, B8)
        self.E = z3.Function('extended_header_size', z3.BoolSort(), I)
        self.crc_fresh = st.alloc(z3.BoolVal(False), 'checksum computed')
        F = self.F
        st.assume(FA(lambda i: z3.And(self.SZ(i, True) >= 0, self.SZ(i, False) >= 0, self.SZ(i, True) < (1 << 40), self.SZ(i, False) < (1 << 40)), 'sizes'))
        st.assume(FA(lambda i: z3.Implies(z3.And(i >= 0, i < self.n), F(i + 1) == F(i) + self.SZ(i, self.u)), 'next frame'))
        st.assume(FA(lambda a, b: z3.Implies(z3.And(0 <= a, a <= b, b <= self.n), F(a) <= F(b)), 'frames in order', 2))
        for t in (z3.IntVal(0), self.n, self.n - 1):
            st.add_T(t)
        for b in (True, False):
            st.assume(z3.And(self.E(b) >= 0, self.E(b) < (1 << 32)))
        self.base = 10 + self.E(self.u) if self.ext else z3.IntVal(10)
        st.assume(F(0) == self.base)
        self.foot = z3.BoolVal(False)
        if self.ver > 2:
            if self.ext:
                h = self.hdr = st.alloc(eng.any_struct(st, eng.record(self.cls + '::ext_header'), 'ext'), 'extended header')
                o = o.set('pext_header_', Ptr(h, A.const(0), True))
            else:
                o = o.set('pext_header_', Ptr(None, A.const(0), True))
        if self.ver == 4:
            self.foot = o.f['footer_']
        self.end = F(self.n) + self.pad
        self.total = self.end + z3.If(self.foot, 10, 0)
        st.assume(self.total < (1 << 62))
        # in version 2.4, the padding counts twice (the repository's own tests have it so)
        self.size = self.total - 10 + (self.pad if self.ver == 4 else 0)
        self.o = o
        self.this = st.alloc(o, 'tag')
        self.layout(eng, st)
        am = eng.abstract_methods
        f = S + 'id3v2_%d_frame::' % self.ver
        for c in (f, S + 'id3v2_frame::', S + 'id3v2_3_plus_frame::'):
            am[c + 'serialized_size'] = self.fr_size
            am[c + 'needs_unsynchronisation'] = self.fr_needs
            am[c + 'write'] = self.fr_write
        eng.model_overrides['get'] = self.get
        if self.ext:
            c = self.cls + '::ext_header::'
            am[c + 'serialized_size'] = self.ext_size
            am[c + 'write'] = self.ext_write
            am[c + 'needs_unsynchronisation'] = self.ext_needs
            am[c + 'crc'] = self.ext_crc
        self.os = st.alloc(M.new_ostream(eng, st, 'os'), 'os')
        args = {'size': [self.u], 'write': [self.os, self.u], 'needs_unsynchronisation': [], 'flags': [], 'crc': []}[self.fn]
        return self.this, args, None

    def layout(self, eng, st):
        """what is expected of the header, the padding and the footer; the rest is what the frames and the extended header write"""
        o, X, bit = self.o.f, self.EXP, lambda c, m: z3.If(c, z3.BitVecVal(m, 8), z3.BitVecVal(0, 8))
        if self.ver == 2:
            flags = bit(o['compression_'], 0x40)
        else:
            flags = bit(z3.BoolVal(self.ext), 0x40) | bit(o['experimental_'], 0x20)
        if self.ver == 4:
            flags = flags | bit(self.foot, 0x10)
        was = o['unsync_'].f
        was = z3.And(was['has'], was['val'])
        self.flags = flags | bit(was, 0x80)
        if self.fn != 'write':
            return
        am = eng.abstract_methods
        fl = z3.BitVec('flags', 8)
        st.assume(fl == self.flags)
        am[self.cls + '::flags'] = lambda eng, st, t, vs, n: [(st, fl)]
        am[self.cls + '::size'] = self.tag_size
        # contents of tags of version 2.4 are kept as they were read
        flags = flags | bit(z3.Or(self.u, was) if self.ver == 4 else self.u, 0x80)
        self.declared = self.end - 10
        self.SS = z3.Function('sync_safe', I, I, B8)
        am[S + 'detail::sync_safe_from_unsigned'] = self.sync_safe
        size = [self.SS(self.declared, z3.IntVal(k)) for k in range(4)]
        head = [z3.BitVecVal(x, 8) for x in (0x49, 0x44, 0x33, self.ver, 0)] + [flags] + size
        st.assume(z3.And(*[X(z3.IntVal(i)) == b for i, b in enumerate(head)]))
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= self.F(self.n), j < self.end), X(j) == 0), 'padding'))
        if self.ver == 4:
            foot = [z3.BitVecVal(x, 8) for x in (0x33, 0x44, 0x49)] + head[3:]
            st.assume(z3.Implies(self.foot, z3.And(*[X(z3.simplify(self.end + i)) == b for i, b in enumerate(foot)])))
            for i in range(10):
                st.add_T(z3.simplify(self.end + i))

    # ---------------------------------------------------------------- callees
    def sync_safe(self, eng, st, t, vs, n):
        """contract of P01"""
        x = eng.rv(st, vs[0])
        for s1, ok in eng.fork(st, x < LIMIT):
            if not ok:
                yield s1, Throw('std::invalid_argument')
                continue
            M.mem_write(eng, s1, eng.rv(s1, vs[1]), Seq(lambda j: self.SS(x, j), z3.IntVal(4), 8, 'array'), z3.IntVal(4), n)
            yield s1, None

    def tag_size(self, eng, st, t, vs, n):
        u = eng.to_bool(eng.rv(st, vs[0])) if vs else z3.BoolVal(False)
        r = A_fresh('size')
        st.assume(z3.And(r >= 0, r < (1 << 63), z3.Implies(u == self.u, r == self.size)))
        yield st, r

    def get(self, eng, st, lv, name, vs, n, args):
        """the frame owned by an element of the list"""
        yield st, Ptr(lv, eng.A.const(0), True)

    def frame(self, eng, st, lv, n):
        i = eng.load(st, lv)
        st.add_T(i)
        eng.oblige(st, 'a frame of the tag', z3.And(i >= 0, i < self.n), n)
        return i

    def last(self, i):
        return z3.And(i == self.n - 1, self.pad == 0)

    def fr_size(self, eng, st, t, vs, n):
        i = self.frame(eng, st, t, n)
        vs = [eng.to_bool(eng.rv(st, v)) for v in vs]
        if self.ver > 2:
            eng.oblige(st, 'the last frame is measured as such if nothing follows', (vs[1] if len(vs) > 1 else z3.BoolVal(False)) == self.last(i), n, 'postcondition')
        yield st, self.SZ(i, vs[0])

    def fr_needs(self, eng, st, t, vs, n):
        i = self.frame(eng, st, t, n)
        b = eng.to_bool(eng.rv(st, vs[0])) if vs else z3.BoolVal(False)
        yield st, self.NU(i, b)

    def fr_write(self, eng, st, t, vs, n):
        i = self.frame(eng, st, t, n)
        u = eng.to_bool(eng.rv(st, vs[1]))
        st.add_T(i + 1)
        k = self.SZ(i, u)
        M.emit(eng, st, vs[0], Seq(lambda j, i=i: self.EXP(self.F(i) + j), k, 8, 'string'))
        yield st, k

    def ext_size(self, eng, st, t, vs, n):
        self.fresh(eng, st, t, n)
        yield st, self.E(eng.to_bool(eng.rv(st, vs[0])) if vs else self.u)

    def ext_write(self, eng, st, t, vs, n):
        u = eng.to_bool(eng.rv(st, vs[1])) if self.ver == 3 else self.u
        self.fresh(eng, st, t, n)
        k = self.E(u)
        M.emit(eng, st, vs[0], Seq(lambda j: self.EXP(10 + j), k, 8, 'string'))
        yield st, k

    def fresh(self, eng, st, t, n):
        if self.ver == 3:
            has = eng.load(st, t).f['crc_'].f['has']
            eng.oblige(st, 'the checksum is that of the frames', z3.Implies(has, eng.load(st, self.crc_fresh)), n, 'postcondition')

    def ext_needs(self, eng, st, t, vs, n):
        self.fresh(eng, st, t, n)
        yield st, self.NU(z3.IntVal(-1), z3.BoolVal(False))

    def ext_crc(self, eng, st, t, vs, n):
        if vs:
            eng.storev(st, self.crc_fresh, z3.BoolVal(True))
        yield st, z3.BitVec('crc', 32)

    # ---------------------------------------------------------------- loops
    def loops(self, eng, nd, st, fn):
        return Frames(self)

    def more(self, eng, entry, head, vs):
        out = lambda st: eng.load(st, self.os).f['out']
        if self.fn == 'write':
            yield 'the output so far', lambda st, j: z3.Implies(z3.And(j >= 0, j < out(st).len), out(st).get(eng.A, j) == self.EXP(j)), 1
            yield 'the output so far: length', lambda st: out(st).len <= self.total, 0
            for v in vs:
                def at(st, v=v):
                    st.add_T(v.fn(st))
                    return out(st).len == self.F(v.fn(st))
                yield 'the output ends where frame %s goes' % v.name, at, 0
        if self.fn == 'needs_unsynchronisation':
            for v in vs:
                def none(st, j, v=v):
                    st.add_T(v.fn(st))
                    return z3.Implies(z3.And(j >= 0, j < v.fn(st)), z3.Not(self.need(j)))

                def all_(st, j, v=v):
                    st.add_T(v.fn(st))
                    return z3.Implies(z3.And(j >= 0, j < v.fn(st)), self.need(j))
                yield 'no frame before %s needs it' % v.name, none, 1
                yield 'every frame before %s needs it' % v.name, all_, 1

    def need(self, i):
        return self.NU(i, self.last(i) if self.ver == 3 else z3.BoolVal(False)) != 0

    def small(self, ctx):
        return [z3.And(self.n <= a, self.pad <= b) for a, b in ((2, 2), (3, 600))]

    def witness(self, ev, ctx):
        n, pad, o = min(int(ev(self.n) or 0), 8), int(ev(self.pad) or 0), self.o.f
        has = lambda x: bool(ev(x)) if x is not None else False
        fl = 0x80 if has(o['unsync_'].f['val']) else 0
        fl |= (0x40 if has(o.get('compression_')) else 0) | (0x40 if self.ext else 0) | (0x20 if has(o.get('experimental_')) else 0) | (0x10 if has(o.get('footer_')) else 0)
        body = ''
        if self.ext:
            body = '0000000a8000000000ff01020304' if self.ver == 3 else '0000000f017000050102030405' + '019c'
        for i in range(n):
            k = z3.IntVal(i)
            x = 'ffe1' if ev(self.NU(k, z3.BoolVal(False))) or (ev(self.SZ(k, z3.BoolVal(True))) or 0) > (ev(self.SZ(k, z3.BoolVal(False))) or 0) else '41ff' if ev(self.NU(k, z3.BoolVal(True))) else '4142'
            body += '7a%02x62' % (0x61 + i) + ('000002' if self.ver == 2 else '63000000020000') + x
        pad = 0xfffe if pad >= LIMIT - 4096 else min(pad, 0xfff0)
        return '%02x%02x%02x%04x' % (self.ver, 1 if has(self.u) else 0, fl, pad) + (body or '00' * 11)

    def post(self, eng, st, out, ctx):
        st.add_T(self.n)
        if self.fn == 'size':
            if out[0] == 'throw':
                return [('does not throw', z3.BoolVal(False))]
            return [('the size is that of what is written after the header%s' % (', and of the padding once more' if self.ver == 4 else ''), eng.rv(st, out[1]) == self.size)]
        if self.fn == 'write':
            if out[0] == 'throw':
                return [('refused only if too large for its header', self.declared >= LIMIT)]
            w = eng.load(st, self.os).f['out']
            st.add_T(w.len)
            return [('the number of bytes written is returned', eng.rv(st, out[1]) == w.len), ('as many bytes as declared', w.len == self.total),
                    ('header, extended header, frames in order, padding, footer', FA(lambda j: z3.Implies(z3.And(j >= 0, j < self.total), w.get(eng.A, j) == self.EXP(j))))]
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        if self.fn == 'flags':
            return [('one bit for each property', eng.rv(st, out[1]) == self.flags)]
        r = eng.to_bool(eng.rv(st, out[1]))
        inside = lambda i: z3.And(i >= 0, i < self.n)
        if self.ver == 4:
            s2 = st.clone()
            s2.assume(FA(lambda i: z3.Implies(inside(i), self.need(i)), 'suppose every frame needs it'))
            return [('true only if every frame needs it', FA(lambda i: z3.Implies(z3.And(r, inside(i)), self.need(i)))),
                    ('false only if some frame does not', r, s2)]
        ext = self.NU(z3.IntVal(-1), z3.BoolVal(False)) != 0 if self.ext else z3.BoolVal(False)
        s2 = st.clone()
        s2.assume(z3.Not(ext))
        s2.assume(FA(lambda i: z3.Implies(inside(i), z3.Not(self.need(i))), 'suppose no part needs it'))
        return [('false only if no frame needs it', FA(lambda i: z3.Implies(z3.And(z3.Not(r), inside(i)), z3.Not(self.need(i))))),
                ('false only if the extended header does not', z3.Implies(z3.Not(r), z3.Not(ext))), ('true only if some part needs it', z3.Not(r), s2)]


class ExtHeader3(Contract):
    """written, measured and searched for false syncs in the form asked for, which is that of its current fields.

    Kept between calls: unless dirty, the two forms held are those of the fields."""
    mode = 'bv'

    def __init__(self, fn):
        self.cls = S + 'id3v2_3_tag::ext_header'
        self.fn, self.qname = fn, self.cls + '::' + fn

    def form(self, f):
        """bytes of the plain form, the last four only with a checksum"""
        crc = f['crc_'].f
        be = lambda v, w: [z3.Extract(8 * k + 7, 8 * k, v) for k in reversed(range(w))]
        return be(z3.If(crc['has'], z3.BitVecVal(10, 32), z3.BitVecVal(6, 32)), 4) + \
            [z3.If(crc['has'], z3.BitVecVal(0x80, 8), z3.BitVecVal(0, 8)), z3.BitVecVal(0, 8)] + be(f['cbpad_'], 4) + be(crc['val'], 4)

    def pre(self, eng, st):
        A = eng.A
        o = eng.any_struct(st, eng.record(self.cls), 'header')
        o = o.set('crc_', Opt('optional', {'has': z3.Bool('has_crc'), 'val': z3.BitVec('crc', 32)})).set('dirty_', z3.Bool('dirty'))
        self.N = z3.If(z3.Bool('has_crc'), z3.BitVecVal(14, 64), z3.BitVecVal(10, 64))
        self.un, self.U = z3.BitVec('unsynchronised_size', 64), z3.Function('unsynchronised', z3.BitVecSort(64), B8)
        self.false = z3.BitVec('false_syncs', 64)
        st.assume(z3.And(z3.UGE(self.un, self.N), z3.ULE(self.un, 2 * self.N)))
        self.old = []
        for i in range(2):
            n = z3.BitVec('cached_size%d' % i, 64)
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 32, 64)))
            self.old.append(seq_sym(A, 'cached%d' % i, n, 8, 'vector'))
        self.want = self.form(o.f)
        o = self.o = o.set('cache_', Tup('objects', {'0': self.old[0], '1': self.old[1]}))
        for nm, g in self.held(eng, o.f):
            st.assume(FA(lambda j, g=g: z3.Implies(z3.Not(o.f['dirty_']), g.fn(j))) if isinstance(g, FA) else z3.Implies(z3.Not(o.f['dirty_']), g))
        am = eng.abstract_methods
        am[S + 'detail::count_syncs'] = self.count
        am[S + 'detail::unsynchronise'] = self.unsync
        self.this = st.alloc(o, 'header')
        self.os = st.alloc(M.new_ostream(eng, st, 'os'), 'os')
        self.u = z3.Bool('unsync')
        return self.this, {'write': [self.os, self.u], 'serialized_size': [self.u], 'needs_unsynchronisation': []}[self.fn], None

    def held(self, eng, f):
        """the forms held are those of the fields"""
        A = eng.A
        c0, c1 = f['cache_'].f['0'], f['cache_'].f['1']
        g = [('plain form: size', c0.len == self.N)]
        for i, b in enumerate(self.want):
            e = c0.get(A, A.const(i)) == b
            g.append(('plain form', e if i < 10 else z3.Implies(z3.Bool('has_crc'), e)))
        g += [('unsynchronised form: size', c1.len == self.un), ('unsynchronised form', FA(lambda j: z3.Implies(z3.ULT(j, self.un), c1.get(A, j) == self.U(j)))),
              ('number of false syncs', f['num_false_syncs_'] == self.false)]
        return g

    def whole(self, eng, st, a, b, n):
        A = eng.A
        a, b = eng.rv(st, a), eng.rv(st, b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv)):
            raise Unsupported('range of something else')
        s = eng.load(st, a.lv)
        eng.oblige(st, 'all of the plain form', z3.And(b.off - a.off == self.N, a.off == 0, b.off == s.len), n, 'postcondition')
        for i, x in enumerate(self.want):
            e = s.get(A, A.const(i)) == x
            eng.oblige(st, 'the plain form', e if i < 10 else z3.Implies(z3.Bool('has_crc'), e), n, 'postcondition')

    def count(self, eng, st, t, vs, n):
        if len(vs) != 3:
            raise Unsupported('pairs of a word')
        self.whole(eng, st, vs[0], vs[1], n)
        eng.oblige(st, 'only false syncs are counted', eng.to_bool(eng.rv(st, vs[2])), n, 'postcondition')
        yield st, self.false

    def unsync(self, eng, st, t, vs, n):
        self.whole(eng, st, vs[1], vs[2], n)
        o = vs[0] if isinstance(vs[0], BackInserter) else eng.rv(st, vs[0])
        if len(vs) > 3:
            eng.oblige(st, 'more follows', z3.Not(eng.to_bool(eng.rv(st, vs[3]))), n, 'postcondition')
        eng.storev(st, o.lv, seq_concat(eng.A, eng.load(st, o.lv), Seq(lambda j: self.U(j), self.un, 8, 'vector')))
        yield st, self.un

    def post(self, eng, st, out, ctx):
        A = eng.A
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, self.this).f
        g = [('fresh afterwards', z3.Not(o['dirty_']))] + [('held: ' + nm, x) for nm, x in self.held(eng, o)]
        r = eng.rv(st, out[1])
        size = z3.If(self.u, self.un, self.N)
        if self.fn == 'needs_unsynchronisation':
            return g + [('the number of false syncs', (r != 0 if z3.is_bv(r) else r) == (self.false != 0))]
        g.append(('the size is that of the form asked for', r == size))
        if self.fn == 'write':
            w = eng.load(st, self.os).f['out']
            g.append(('as many bytes written as returned', w.len == size))
            for i, x in enumerate(self.want):
                e = w.get(A, A.const(i)) == x
                g.append(('the plain form is written', z3.Implies(z3.And(z3.Not(self.u), *([] if i < 10 else [z3.Bool('has_crc')])), e)))
            g.append(('the unsynchronised form is written', FA(lambda j: z3.Implies(z3.And(self.u, z3.ULT(j, self.un)), w.get(A, j) == self.U(j)))))
        return g

    def witness(self, ev, ctx):
        return '03%02x40ffff' % (1 if ev(self.u) else 0) + ('0000000a8000000000ff00000000' if ev(z3.Bool('has_crc')) else '00000006000000ff00e0') + '58414243000000020000ffe1'


class ExtHeader4(Contract):
    """the fields, each in its place, in as many bytes as it declares"""
    mode = 'bv'

    unroll = 6

    def __init__(self, fn, case=None):
        self.cls = S + 'id3v2_4_tag::ext_header'
        self.fn, self.qname, self.case = fn, self.cls + '::' + fn, case
        if case is not None:
            self.label = '%s [restriction of the tag size: %d]' % (self.qname, case)

    def pre(self, eng, st):
        o = self.o = eng.any_struct(st, eng.record(self.cls), 'header')
        for k in ('tag_size_restriction_', 'text_size_restriction_', 'image_sz_restriction_'):
            st.assume(z3.ULE(o.f[k], 3))
        if self.case is not None:
            st.assume(o.f['tag_size_restriction_'] == self.case)
        self.this = st.alloc(o, 'header')
        self.os = st.alloc(M.new_ostream(eng, st, 'os'), 'os')
        tag = st.alloc(eng.any_struct(st, eng.record(S + 'id3v2_4_tag'), 'tag'), 'tag')
        self.crc = z3.BitVec('checksum', 32)
        eng.abstract_methods[self.cls + '::crc'] = self.get_crc
        return self.this, [self.os, tag] if self.fn == 'write' else [], None

    def get_crc(self, eng, st, t, vs, n):
        eng.oblige(st, 'the checksum is that of the tag', z3.BoolVal(len(vs) == 1), n, 'postcondition')
        yield st, self.crc

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        A, o = eng.A, self.o.f
        up, crc, rst = o['is_update_'], o['fcrc_'], o['restricted_']
        one = lambda c, m: z3.If(c, z3.BitVecVal(m, 64), z3.BitVecVal(0, 64))
        size = 6 + one(up, 1) + one(crc, 6) + one(rst, 2)
        r = eng.rv(st, out[1])
        g = [('size', r == size)]
        if self.fn != 'write':
            return g
        w = eng.load(st, self.os).f['out']
        g.append(('as many bytes as returned', w.len == size))
        bit = lambda c, m: z3.If(c, z3.BitVecVal(m, 8), z3.BitVecVal(0, 8))
        Z = lambda n: z3.BitVecVal(n, 8)
        low = lambda v, hi, lo: z3.Extract(hi, lo, v)
        x = self.crc
        x5 = [z3.Concat(z3.BitVecVal(0, 4), low(x, 31, 28))] + [z3.Concat(z3.BitVecVal(0, 1), low(x, h, h - 6)) for h in (27, 20, 13, 6)]
        restr = z3.Concat(low(o['tag_size_restriction_'], 1, 0), z3.If(o['text_enc_restriction_'], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), low(o['text_size_restriction_'], 1, 0),
                          z3.If(o['image_enc_restriction_'], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), low(o['image_sz_restriction_'], 1, 0))
        parts = [(True, 'size', [Z(0), Z(0), Z(0), z3.Extract(7, 0, size)]), (True, 'flags', [Z(1), bit(up, 64) | bit(crc, 32) | bit(rst, 16)]),
                 (up, 'update flag', [Z(0)]), (crc, 'checksum', [Z(5)] + x5), (rst, 'restrictions', [Z(1), restr])]
        off = z3.BitVecVal(0, 64)
        for c, nm, bs in parts:
            for i, b in enumerate(bs):
                e = w.get(A, z3.simplify(off + i)) == b
                g.append((nm, e if c is True else z3.Implies(c, e)))
            k = z3.BitVecVal(len(bs), 64)
            off = off + (k if c is True else z3.If(c, k, z3.BitVecVal(0, 64)))
        return g

    def witness(self, ev, ctx):
        o = self.o.f
        up, crc, rst = (bool(ev(o[k])) for k in ('is_update_', 'fcrc_', 'restricted_'))
        x = ev(self.crc) or 0
        b = [1, up * 64 | crc * 32 | rst * 16] + [0] * up + ([5] + [x >> s & 127 for s in (28, 21, 14, 7, 0)] if crc else [])
        if rst:
            v = lambda k: int(ev(o[k]) or 0)
            b += [1, v('tag_size_restriction_') << 6 & 192 | v('text_enc_restriction_') << 5 | (v('text_size_restriction_') & 3) << 3 | v('image_enc_restriction_') << 2 | v('image_sz_restriction_') & 3]
        b = [0, 0, 0, len(b) + 4] + b
        return '040040' + 'ffff' + ''.join('%02x' % y for y in b) + '584142430000000200004142'


class Checksum(Tag):
    """the checksum of the frames' plain forms, one after the other (and of the padding in version 2.4)

    CR(i, x): checksum x continued over frame i.  ZC(x, k): checksum x continued over k zero bytes."""

    def __init__(self, ver):
        Tag.__init__(self, ver, 'crc', False)
        self.qname = self.cls + '::ext_header::crc'
        self.label = None

    def pick(self, f):
        return any(c.get('kind') == 'ParmVarDecl' for c in f['inner'])

    def pre(self, eng, st):
        Tag.pre(self, eng, st)
        eng.A.lazy_word = True
        W = z3.BitVecSort(32)
        self.CR, self.C, self.ZC = z3.Function('frame_crc', I, W, W), z3.Function('crc_of_frames', I, W), z3.Function('zeros_crc', W, I, W)
        val = lambda x: eng.conv(x, 'unsigned int', 'unsigned long')
        self.val = val
        st.assume(FA(lambda i: z3.Implies(z3.And(i >= 0, i < self.n), self.C(i + 1) == self.CR(i, self.C(i))), 'checksum of the frames'))
        st.assume(self.C(0) == 0)
        o = eng.any_struct(st, eng.record(self.cls + '::ext_header'), 'ext')
        if self.ver == 3:
            o = o.set('crc_', Opt('optional', {'has': z3.Bool('has_crc'), 'val': z3.BitVec('old_crc', 32)}))
        self.ho = o
        self.hdr = st.alloc(o, 'extended header')
        self.want = self.C(self.n) if self.ver == 3 else self.ZC(self.C(self.n), self.pad)
        am = eng.abstract_methods
        for c in (S + 'id3v2_%d_frame::' % self.ver, S + 'id3v2_3_plus_frame::'):
            am[c + 'crc'] = self.fr_crc
        am['crc32'] = self.crc32
        return self.hdr, [self.this], None

    def fr_crc(self, eng, st, t, vs, n):
        i = self.frame(eng, st, t, n)
        st.add_T(i + 1)
        yield st, self.CR(i, eng.rv(st, vs[0]))

    def crc32(self, eng, st, t, vs, n):
        """zlib: the initial value for a null pointer; else continued over the bytes, of which only zeros are known here"""
        c, p, k = (eng.rv(st, v) for v in vs)
        k = eng.conv(k, 'unsigned int', 'unsigned long') if z3.is_bv(k) else k
        if isinstance(p, Ptr) and p.lv is None or z3.is_expr(p):
            yield st, z3.IntVal(0)
            return
        x = eng.conv(c, 'unsigned long', 'unsigned int') if not z3.is_bv(c) else c
        d = M.mem_read(eng, st, p, k, n)
        eng.oblige(st, 'zeros', FA(lambda j: z3.Implies(z3.And(j >= 0, j < k), d.get(eng.A, j) == 0)), n, 'postcondition')
        y = self.ZC(x, k)
        st.assume(FA(lambda b: z3.Implies(b >= 0, self.ZC(y, b) == self.ZC(x, k + b))))
        yield st, self.val(y)

    def more(self, eng, entry, head, vs):
        for v in vs:
            def at(st, v=v):
                st.add_T(v.fn(st))
                return self.C(v.fn(st))
            for nm, acc in self.words(head, entry):
                yield '%s is the checksum up to %s' % (nm, v.name), lambda st, at=at, acc=acc: acc(st) == at(st), 0
            for u in vs:
                yield '%s is the checksum up to %s' % (u.name, v.name), lambda st, at=at, u=u: u.fn(st) == self.val(at(st)), 0
            if self.ver == 4:
                yield '%s zeros to go' % v.name, lambda st, v=v: (st.add_T(v.fn(st)), self.ZC(self.cur(eng, st), v.fn(st)) == self.want)[1], 0

    def cur(self, eng, st):
        return eng.load(st, self.hdr).f['crc_']

    def words(self, head, entry):
        for cell, v in head.store.items():
            if z3.is_bv(v) and v.size() == 32 and cell in entry.store and not v.eq(entry.store[cell]):
                yield cell.split('!')[0], lambda st, cell=cell: st.store[cell]

    def post(self, eng, st, out, ctx):
        st.add_T(self.n)
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o, old = eng.load(st, self.hdr).f, self.ho.f
        r = eng.rv(st, out[1])
        if self.ver == 3:
            c, c0 = o['crc_'].f, old['crc_'].f
            return [('the checksum of the frames', r == self.want), ('kept', z3.And(c['has'], c['val'] == self.want)),
                    ('to be written anew if it changed', z3.Implies(z3.Or(old['dirty_'], z3.Not(c0['has']), c0['val'] != self.want), o['dirty_']))]
        st.add_T(self.pad)
        st.assume(self.ZC(o['crc_'], z3.IntVal(0)) == o['crc_'])
        return [('the checksum of frames and padding, if it was not known', z3.Implies(old['crc_dirty_'], r == self.want)),
                ('the checksum kept otherwise', z3.Implies(z3.Not(old['crc_dirty_']), r == old['crc_'])), ('kept', z3.And(o['crc_'] == r, z3.Not(o['crc_dirty_'])))]


CONTRACTS = [(TU % 3, ExtHeader3(f)) for f in ('serialized_size', 'needs_unsynchronisation', 'write')] + [(TU % 4, ExtHeader4('serialized_size'))]
CONTRACTS += [(TU % 4, ExtHeader4('write', c)) for c in range(4)] + [(TU % v, Checksum(v)) for v in (3, 4)]
CONTRACTS += [(TU % v, Tag(v, fn, e)) for fn in ('flags', 'size', 'needs_unsynchronisation', 'write') for v in (2, 3, 4) for e in (False, True) if v > 2 or not e]
SEARCH_S = 6
ASSUMPTIONS = [
    'a frame writes as many bytes as it reports, and the same ones each time (contracts of P17 about the frames; the virtual functions of the tag\'s frames are used through these alone)',
    'sync-safe numbers are those of P01, and numbers of 2^28 and more are refused there (contract of P01)',
    'unsynchronising and counting false syncs are those of P02: the unsynchronised form of an extended header is a function of its plain form',
    'a tag has less than 2^40 frames, and less than 2^62 bytes including its padding; a frame less than 2^40 bytes',
    'size() of an ID3v2.4 tag includes the padding twice, as the tests of the repository have it; it is under contract as it stands and write() is proved to declare the padding once',
    'ID3v2.4 tags: needs_unsynchronisation() is true if all frames need it, as documented, and a tag that was read with the flag set keeps it, its contents being kept as they were',
    'the checksum in an ID3v2.4 extended header that was read is written as it was read',
]
TRUSTED = ['zlib: crc32() continues a checksum over the bytes given, and starts at 0; continuing it over a zeros and then b zeros is continuing it over a + b zeros',
           'std::accumulate, std::any_of and std::all_of visit the elements in order, each once (as loops whose bodies are the functions passed, executed from the source)',
           'std::ostream::write appends the bytes to the stream']
