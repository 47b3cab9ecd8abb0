"""P18: reading a tag gives each frame exactly the bytes its header declares."""
import os
import z3
from cxxvc.cast import Unsupported
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc.spec import positions

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P18v%d.cc')
I = z3.IntSort()
B8 = z3.BitVecSort(8)
S = 'scribbu::'


def tag_input(ver, info, flags, body):
    """the executable contract's input for a tag with these contents"""
    if flags & 0x80 and ver < 4:
        u = []
        for i, x in enumerate(body):
            u.append(x)
            if x == 255 and (i + 1 == len(body) or body[i + 1] == 0 or body[i + 1] >= 0xe0):
                u.append(0)
        body = u
    n = len(body)
    return ''.join('%02x' % x for x in [ver | (16 if info else 0), 0, flags] + [n >> s & 127 for s in (21, 14, 7, 0)] + body)


class Walk:
    """invariants: quantities that are the start of the next frame; the padding found so far"""

    join = True

    def __init__(self, c):
        self.c = c

    def setup(self, eng, inst, entry, head, modified):
        c = self.c
        inst.phases = [[]]
        inst.extra_T = []

        def add(name, f):
            x = (name, f, 0)
            inst.cands.append(x)
            inst.phases[0].append(x)
        vs = [v for v in positions(head, modified) if v.mod]
        add('nothing refused so far', lambda st: z3.Not(eng.load(st, c.callee)))
        add('next frame is due', lambda st: c.chain(c.cur(st)))
        add('next frame is in the walk', lambda st: c.stop(c.cur(st)) == c.stop(c.start))
        add('next frame within', lambda st: z3.Or(c.cur(st) <= c.N, c.cur(st) == c.start))
        add('next frame not negative', lambda st: c.cur(st) >= 0)
        add('no further frame', lambda st: c.done(c.cur(st)))
        for v in vs:
            def T(st, v=v):
                return c.at(st, v.fn(st))
            add('%s is the next frame' % v.name, lambda st, v=v: v.fn(st) == c.cur(st))
            add('%s >= 0' % v.name, lambda st, v=v: v.fn(st) >= 0)
            inst.measures.append((v.name, lambda st, v=v: v.fn(st)))
            if v.name.startswith(('ghost', 'tag.')):
                continue
            add('%s starts a frame' % v.name, lambda st, T=T: c.chain(T(st)))
            add('%s in the walk' % v.name, lambda st, T=T: c.stop(T(st)) == c.stop(c.start))
            add('%s within' % v.name, lambda st, T=T: z3.Or(T(st) <= c.N, T(st) == c.start))
            inst.measures.append(('N - %s' % v.name, lambda st, v=v: c.N - v.fn(st)))
        pad = lambda st: eng.load(st, c.this).f['padding_']
        if not z3.simplify(pad(head)).eq(z3.simplify(pad(entry))):
            known = z3.If(c.stop(c.start) < c.N, c.N - c.stop(c.start), 0)
            add('padding as before', lambda st: pad(st) == pad(entry))
            add('padding known or as before', lambda st: z3.Or(pad(st) == pad(entry), pad(st) == known))
            add('padding known', lambda st: pad(st) == known)


class Parse(Contract):
    """Ghost state: where the next frame starts.

    bytes(j): the tag after its header, resynchronised as a whole if its header says so (not v2.4).
    chain(p): a frame header is due at p.  stop(p): where the walk over the frames that starts at p ends."""
    mode = 'int'
    expect_return = True

    def __init__(self, ver, unsync=False, ext=False):
        self.ver, self.case = ver, (unsync, ext)
        self.cls = S + 'id3v2_%d_tag' % ver
        self.qname = self.cls + '::parse'
        how = ['%s%s' % ('' if c else 'no ', w) for c, w, vs in ((unsync, 'unsynchronisation', (2, 3)), (ext, 'extended header', (3, 4))) if ver in vs]
        self.label = '%s [%s]' % (self.qname, ', '.join(how))
        self.idn, self.head = (3, 6) if ver == 2 else (4, 10)

    def pre(self, eng, st):
        A = eng.A
        A.lazy_value = True
        self.eng = eng
        s = M.new_istream(eng, st, 'is')
        st.assume(s.f['st'] == 0)
        self.s0 = s
        self.is_ = st.alloc(s, 'is')
        self.size = z3.Int('tag_size')
        st.assume(z3.And(self.size >= 0, self.size < (1 << 28)))
        o = eng.default_struct(st, eng.record(self.cls), 'tag')
        self.o = o.set('padding_', z3.IntVal(0))
        this = self.this = st.alloc(self.o, 'tag')
        self.unsync = z3.BoolVal(self.case[0])
        self.rn, self.res = z3.Int('resynchronised_size'), z3.Function('resynchronised', I, B8)
        st.assume(z3.And(self.rn >= 0, self.rn <= self.size))
        d, p = s.f['data'], s.f['pos']
        raw = lambda j: d.get(A, z3.simplify(p + j))
        self.N = self.rn if self.case[0] else self.size
        self.byte = self.res if self.case[0] else raw
        self.ext = z3.BoolVal(self.case[1])
        self.start = z3.Int('extended_header_size') if self.case[1] else z3.IntVal(0)
        st.assume(z3.And(self.start >= 0, self.start <= self.N))
        self.chain, self.stop = z3.Function('chain', I, z3.BoolSort()), z3.Function('stop', I, I)
        st.assume(self.chain(self.start))
        self.frames = {}
        self.malformed = z3.Bool('malformed')
        st.assume(FA(self.walk, 'frames follow one another', only=lambda p: p.get_id() in self.frames))
        self.at(st, self.start)
        self.dn, self.dec = z3.Function('decompressed_size', I, I), z3.Function('decompressed', I, I, B8)
        st.assume(FA(lambda p: z3.And(self.dn(p) >= 0, self.dn(p) < (1 << 40)), 'decompressed sizes'))
        self.ghost = st.alloc(Struct('ghost', {'cur': self.start}), 'ghost')
        self.callee = st.alloc(z3.BoolVal(False), 'refused by a callee')
        am = eng.abstract_methods
        am['unsynchronised'] = self.get_unsync
        am['resynchronise'] = self.resync
        am['parse_frame'] = self.frame
        am['decompress'] = self.decompress
        am['encryption_method_regd'] = self.regd
        am['register_encryption_method'] = self.register
        am[self.cls + '::ext_header::ext_header'] = self.ext_header
        args = [self.is_, self.size] + ([self.ext] if self.ver > 2 else [])
        return this, args, {'A': A}

    # ---------------------------------------------------------------- the format
    def field(self, p, n=4, safe=None):
        """size field of n bytes at p"""
        bs = [self.byte(z3.simplify(p + i)) for i in range(n)]
        if (self.ver == 4) if safe is None else safe:
            v = z3.Concat(z3.BitVecVal(0, 4), *[z3.Extract(6, 0, b) for b in bs])
        else:
            v = z3.Concat(*([z3.BitVecVal(0, 32 - 8 * n)] if n < 4 else []) + bs)
        return self.eng.conv(v, 'unsigned int', 'unsigned long')

    def length(self, p):
        return self.field(p + self.idn, self.idn)

    def padding(self, p):
        """fewer bytes left than an identifier has, or an identifier's worth: all zero"""
        return z3.And(*[z3.Implies(p + i < self.N, self.byte(p + i) == 0) for i in range(self.idn)])

    def done(self, p):
        return z3.Or(p >= self.N, self.padding(p))

    def walk(self, p):
        nx = p + self.head + self.length(p)
        return z3.And(z3.Implies(self.done(p), self.stop(p) == p),
                      z3.Implies(z3.Not(self.done(p)), self.stop(p) == self.stop(nx)),
                      z3.Implies(z3.And(self.chain(p), z3.Not(self.done(p))), self.chain(nx)),
                      z3.Implies(z3.And(self.chain(p), z3.Not(self.done(p)), self.unfit(p, nx)), self.malformed))

    def unfit(self, p, nx):
        """the frame does not fit the tag, or not its own additional fields, or is encrypted"""
        u = [p + self.head + 1 > self.N, nx > self.N]
        if self.ver > 2:
            f = self.flags(p)
            u += [self.fields(p)['contents'] > nx, f['enc']]
            if self.ver == 4:
                u.append(z3.And(f['zip'], z3.Not(f['dli'])))
        return z3.Or(*u)

    def refuse(self, eng, st, ty):
        eng.storev(st, self.callee, z3.BoolVal(True))
        return Throw(ty)

    def flags(self, p):
        """flag bytes of the frame at p: dict of conditions"""
        f0, f1 = self.byte(p + 8), self.byte(p + 9)
        on = lambda f, m: (f & m) != 0
        if self.ver == 3:
            return dict(tap=on(f0, 0x80), fap=on(f0, 0x40), ro=on(f0, 0x20), zip=on(f1, 0x80), enc=on(f1, 0x40), gid=on(f1, 0x20))
        return dict(tap=on(f0, 0x40), fap=on(f0, 0x20), ro=on(f0, 0x10), gid=on(f1, 0x40), zip=on(f1, 0x08), enc=on(f1, 0x04), uns=on(f1, 0x02), dli=on(f1, 0x01))

    def fields(self, p):
        """offsets of the additional fields and of the contents"""
        f = self.flags(p)
        w = lambda c, n: z3.If(c, z3.IntVal(n), z3.IntVal(0))
        at = {}
        q = p + 10
        for k, n in (('zip', 4), ('enc', 1), ('gid', 1)) if self.ver == 3 else (('gid', 1), ('enc', 1), ('dli', 4)):
            at[k] = q
            q = q + w(f[k], n)
        at['contents'] = q
        return at

    # ---------------------------------------------------------------- abstract callees
    def get_unsync(self, eng, st, t, vs, n):
        if vs:
            raise Unsupported('unsynchronised changed')
        known = z3.Bool('unsynchronised_known')
        if self.ver < 4:
            st.assume(z3.Implies(self.unsync, known))
        yield st, Opt('optional', {'has': known, 'val': self.unsync})

    def ext_header(self, eng, st, lv, vs, n):
        """its contract is below; here all that matters is where it ends"""
        p0, p1 = eng.rv(st, vs[0]), eng.rv(st, vs[1])
        eng.oblige(st, 'the extended header starts the tag', p0.off == 0, n, 'postcondition')
        eng.oblige(st, 'the extended header lies within the tag', p1.off == self.N, n, 'postcondition')
        for s1, ok in eng.fork(st, z3.Bool(fresh_name('extended_header_ok'))):
            if not ok:
                yield s1, self.refuse(eng, s1, 'scribbu::id3v2_%d_tag::invalid_ext_header' % self.ver)
                continue
            o = eng.load(s1, lv)
            if self.ver == 3:
                crc = z3.Bool('extended_header_crc')
                o = o.set('crc_', Opt('optional', {'has': crc, 'val': z3.BitVec('crc', 32)}))
                s1.assume(self.start == z3.If(crc, 14, 10))
            else:
                o = o.set('size_', self.start).set('size_dirty_', z3.BoolVal(False))
            eng.storev(s1, lv, o)
            yield s1, None

    def resync(self, eng, st, t, vs, n):
        p, cb = eng.rv(st, vs[0]), eng.rv(st, vs[1])
        A = eng.A
        src = M.mem_read(eng, st, p, cb, n)
        d, pos = self.s0.f['data'], self.s0.f['pos']
        eng.oblige(st, 'the whole tag is resynchronised', cb == self.size, n, 'postcondition')
        eng.oblige(st, 'the whole tag is resynchronised', FA(lambda j: z3.Implies(z3.And(j >= 0, j < self.size), src.get(A, j) == d.get(A, pos + j))), n, 'postcondition')
        M.mem_write(eng, st, p, Seq(lambda j: self.res(j), self.rn, 8, 'array'), self.rn, n)
        yield st, self.rn

    def at(self, st, p):
        """p is where a frame may start"""
        q = z3.simplify(p)
        self.frames[q.get_id()] = q
        st.add_T(p)
        return p

    def cur(self, st):
        return self.at(st, self.eng.load(st, self.ghost).f['cur'])

    def exact(self, eng, st, n, name, ptr, cb, lo, hi):
        """[ptr, ptr + cb) are the bytes [lo, hi) of the tag"""
        A = eng.A
        eng.oblige(st, name + ': first byte', ptr.off == lo, n, 'postcondition')
        eng.oblige(st, name + ': number of bytes', cb == hi - lo, n, 'postcondition')
        got = M.mem_read(eng, st, ptr, cb, n, name + ': within the tag')
        eng.oblige(st, name + ': bytes', FA(lambda j: z3.Implies(z3.And(j >= 0, j < hi - lo), got.get(A, j) == self.byte(lo + j))), n, 'postcondition')

    def decompress(self, eng, st, t, vs, n):
        A = eng.A
        p, cb, sz = (eng.rv(st, v) for v in vs)
        lo = z3.simplify(p.off)
        st.add_T(lo)
        for s1, ok in eng.fork(st, z3.Bool(fresh_name('zlib_ok'))):
            if not ok:
                yield s1, self.refuse(eng, s1, 'scribbu::zlib_error')
                continue
            k = self.dn(lo)
            cell = s1.alloc(Seq(lambda j: self.dec(lo, j), k, 8, 'array'), 'decompressed')
            s1.assume(z3.And(k >= 0, k <= sz))
            self.zipped = getattr(self, 'zipped', {})
            self.zipped[cell.cell] = (p, cb, sz)
            yield s1, Tup('tuple', {'0': Ptr(cell, A.const(0)), '1': k})

    def regd(self, eng, st, t, vs, n):
        yield st, z3.Bool(fresh_name('registered'))

    def register(self, eng, st, t, vs, n):
        for s1, ok in eng.fork(st, z3.Bool(fresh_name('method_ok'))):
            yield s1, (None if ok else self.refuse(eng, s1, 'std::invalid_argument'))

    def frame(self, eng, st, t, vs, n):
        A = eng.A
        p = self.cur(st)
        vs = [eng.rv(st, v) for v in vs]
        i = vs[0]
        nxt = p + self.head + self.length(p)
        st.add_T(nxt)
        ob = lambda name, g: eng.oblige(st, name, g, n, 'postcondition')
        ob('a frame starts there', z3.And(p < self.N, z3.Not(self.padding(p))))
        for k in range(self.idn):
            ob('identifier', i.f['id_'].get(A, A.const(k)) == self.byte(p + k))
        ob('the frame ends within the tag', nxt <= self.N)
        lo = p + 6
        p0, p1 = vs[-2], vs[-1]
        if self.ver > 2:
            f, at = self.flags(p), self.fields(p)
            lo = at['contents']
            ob('the additional fields are within the frame', lo <= nxt)
            a = vs[1:-2]
            if self.ver == 4:
                ob('size', a[0] == p1.off - p0.off)
                a = a[1:]
            for k, v in zip(('tap', 'fap', 'ro'), a):
                ob('flag: ' + k, (v == 1) == f[k])
            enc, gid = a[3].f, a[4].f
            ob('encryption method', enc['has'] == f['enc'])
            ob('encryption method', z3.Implies(f['enc'], enc['val'] == self.byte(at['enc'])))
            ob('group identifier', gid['has'] == f['gid'])
            ob('group identifier', z3.Implies(f['gid'], gid['val'] == self.byte(at['gid'])))
            dl = a[-1].f
            k = 'zip' if self.ver == 3 else 'dli'
            ob('decompressed size', dl['has'] == f[k])
            ob('decompressed size', z3.Implies(f[k], dl['val'] == self.field(at[k])))
            if self.ver == 4:
                ob('flag: compressed', a[5] == f['zip'])
                ob('flag: unsynchronised', a[6] == f['uns'])
            ob('encrypted contents are decrypted', z3.Not(f['enc']))
            z = getattr(self, 'zipped', {}).get(p0.lv.cell)
            ob('compressed contents are decompressed, others not', f['zip'] == z3.BoolVal(z is not None))
            if z is not None:
                src, cb, sz = z
                ob('decompressed contents: from the first byte', p0.off == 0)
                ob('decompressed contents: to the last byte', p1.off == self.dn(z3.simplify(src.off)))
                ob('decompressed size', sz == self.field(at[k]))
                self.exact(eng, st, n, 'compressed contents', src, cb, lo, nxt)
                p0 = None
        if p0 is not None:
            self.exact(eng, st, n, 'contents', p0, p1.off - p0.off, lo, nxt)
        ghost = eng.load(st, self.ghost)
        eng.storev(st, self.ghost, ghost.set('cur', z3.simplify(nxt)))
        for s1, ok in eng.fork(st, z3.Bool(fresh_name('frame_ok'))):
            yield s1, (None if ok else self.refuse(eng, s1, 'scribbu::error'))

    # ---------------------------------------------------------------- loops
    def loops(self, eng, nd, st, fn):
        return Walk(self)

    def small(self, ctx):
        return [self.N <= 12, self.N <= 24, self.N <= 40, self.N <= 80]

    EXT = {3: '00000006000000000000', 4: '000000060100'}

    def witness(self, ev, ctx):
        n, k = ev(self.N), ev(self.start)
        if n is None or n > 300 or k is None or not 0 <= k <= n:
            return None
        b = [ev(self.byte(z3.IntVal(i))) for i in range(k, n)]
        if any(x is None for x in b):
            return None
        flags = (0x80 if self.case[0] else 0) | (0x40 if self.case[1] else 0)
        return tag_input(self.ver, True, flags, (list(bytes.fromhex(self.EXT[self.ver])) if self.case[1] else []) + b)

    def post(self, eng, st, out, ctx):
        A = eng.A
        s, s0 = eng.load(st, self.is_), self.s0
        g = [('exception mask restored', s.f['exc'] == s0.f['exc'])]
        if out[0] == 'throw':
            g.append(('stream put back', s.f['pos'] == s0.f['pos']))
            g.append(('refused only if incomplete, malformed or encrypted, or because a frame is refused',
                      z3.Or(self.malformed, eng.load(st, self.callee), s0.f['pos'] + self.size > s0.f['data'].len)))
            return g
        p = self.cur(st)
        st.add_T(p)
        pad = eng.load(st, self.this).f['padding_']
        g += [('stream after the tag', s.f['pos'] == s0.f['pos'] + self.size),
              ('every frame read', z3.Or(self.done(p))),
              ('padding', pad == z3.If(p < self.N, self.N - p, 0))]
        return g


class ExtHeader(Contract):
    """fields from their places, refused unless complete and well formed"""
    mode = 'bv'

    def __init__(self, ver):
        self.ver = ver
        self.cls = S + 'id3v2_%d_tag::ext_header' % ver
        self.qname = self.cls + '::ext_header'

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) == 2 and 'unsigned char' in ps[0]

    def pre(self, eng, st):
        A = eng.A
        self.n = z3.BitVec('size', 64)
        st.assume(z3.And(self.n >= 0, self.n < (1 << 28)))
        self.buf = seq_sym(A, 'tag', self.n, 8, 'array')
        b = st.alloc(self.buf, 'buffer')
        self.this = st.alloc(eng.default_struct(st, eng.record(self.cls), 'header'), 'header')
        self.b = lambda i: self.buf.get(A, z3.simplify(z3.BitVecVal(0, 64) + i))
        self.val = lambda bv: eng.conv(bv, 'unsigned int', 'unsigned long')
        return self.this, [Ptr(b, z3.BitVecVal(0, 64)), Ptr(b, self.n)], None

    def plain(self, i):
        return z3.Concat(*[self.b(i + k) for k in range(4)])

    def safe(self, i, n):
        return z3.Concat(*([z3.BitVecVal(0, 4)] if n == 4 else []) + [z3.Extract(3 if n == 5 and k == 0 else 6, 0, self.b(i + k)) for k in range(n)])

    def small(self, ctx):
        return [self.n <= 16, self.n <= 64]

    def witness(self, ev, ctx):
        n = ev(self.n)
        if n is None or n > 300:
            return None
        return tag_input(self.ver, True, 0x40, [ev(self.b(i)) for i in range(n)])

    def post(self, eng, st, out, ctx):
        o = eng.load(st, self.this).f
        on = lambda i, m: (self.b(i) & m) != 0
        if self.ver == 3:
            crc = on(4, 0x80)
            ok = z3.And(self.n >= 10, self.plain(0) == z3.If(crc, z3.BitVecVal(10, 32), z3.BitVecVal(6, 32)), z3.Implies(crc, self.n >= 14))
            if out[0] == 'throw':
                return [('refused only if malformed', z3.Not(ok))]
            return [('malformed is refused', ok), ('size of padding', o['cbpad_'] == self.val(self.plain(6))), ('checksum present', o['crc_'].f['has'] == crc),
                    ('checksum', z3.Implies(crc, o['crc_'].f['val'] == self.plain(10)) if o['crc_'].f['val'] is not None else z3.Not(crc))]
        up, crc, rst = on(5, 0x40), on(5, 0x20), on(5, 0x10)
        q = 5 + z3.ZeroExt(56, self.b(4))
        w = lambda c, k: z3.If(c, z3.BitVecVal(k, 64), z3.BitVecVal(0, 64))
        c, r = q + w(up, 1), q + w(up, 1) + w(crc, 6)
        end = r + w(rst, 2)
        ok = z3.And(self.n >= 6, self.b(4) != 0, self.val(self.safe(0, 4)) <= self.n, z3.Or(z3.Not(z3.Or(up, crc, rst)), end <= self.n),
                    z3.Implies(up, self.b(q) == 0), z3.Implies(rst, self.b(r) == 1),
                    z3.Implies(crc, z3.And(self.b(c) == 5, z3.ULE(self.b(c + 1), 15), *[z3.ULE(self.b(c + k), 127) for k in (2, 3, 4, 5)])))
        for t in (q, c, r):
            st.add_T(t)
        if out[0] == 'throw':
            return [('refused only if malformed', z3.Not(ok))]
        g = [('malformed is refused', ok), ('size', o['size_'] == self.val(self.safe(0, 4))), ('size known', z3.Not(o['size_dirty_'])), ('update flag', o['is_update_'] == up),
             ('checksum flag', o['fcrc_'] == crc), ('restrictions flag', o['restricted_'] == rst),
             ('checksum', z3.Implies(crc, o['crc_'] == self.safe(c + 1, 5)))]
        x = self.b(r + 1)
        for k, hi, lo in (('tag_size_restriction_', 7, 6), ('text_enc_restriction_', 5, 5), ('text_size_restriction_', 4, 3), ('image_enc_restriction_', 2, 2), ('image_sz_restriction_', 1, 0)):
            v, f = o[k], z3.Extract(hi, lo, x)
            g.append(('restriction: ' + k.strip('_').replace('_', ' '), z3.Implies(rst, (v == (f != 0)) if z3.is_bool(v) else v == z3.ZeroExt(v.size() - f.size(), f))))
        return g


class Construct(Contract):
    """the header's fields, and the tag's contents read once, as the header says"""
    mode = 'bv'
    FLAGS = {2: (('compression_', 0x40),), 3: (('experimental_', 0x20),), 4: (('experimental_', 0x20), ('footer_', 0x10))}

    def __init__(self, ver, info):
        self.ver, self.info = ver, info
        name = 'id3v2_%d_tag' % ver
        self.cls = S + name
        self.qname = self.cls + '::' + name
        self.label = '%s(istream%s)' % (self.qname, ', header' if info else '')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) == (2 if self.info else 1) and ps[0].replace('std::', '').startswith('istream')

    def pre(self, eng, st):
        A = eng.A
        s = self.s0 = M.new_istream(eng, st, 'is')
        st.assume(s.f['st'] == 0)
        self.is_ = st.alloc(s, 'is')
        self.this = st.alloc(eng.default_struct(st, eng.record(self.cls), 'tag'), 'tag')
        self.calls = st.alloc(z3.BitVecVal(0, 8), 'calls')
        b = lambda i: s.f['data'].get(A, z3.simplify(s.f['pos'] + i))
        if self.info:
            H = eng.default_struct(st, eng.record(S + 'id3v2_info'), 'info')
            self.H = H
            self.ok = H.f['present_']
            self.version, self.revision, self.flags = H.f['version_'], H.f['revision_'], H.f['flags_']
            self.size, self.at = z3.ZeroExt(32, H.f['size_']), s.f['pos']
            args = [self.is_, st.alloc(H, 'info')]
        else:
            st.assume(s.f['pos'] + 10 <= s.f['data'].len)
            st.assume(z3.And(*[b(i) == ord('ID3'[i]) for i in range(3)] + [b(3) != 255, b(4) != 255] + [z3.ULT(b(i), 128) for i in range(6, 10)]))
            self.ok = z3.BoolVal(True)
            self.version, self.revision, self.flags = b(3), b(4), b(5)
            self.size = z3.Concat(z3.BitVecVal(0, 36), *[z3.Extract(6, 0, b(i)) for i in range(6, 10)])
            st.assume(self.size != 0)
            self.at = s.f['pos'] + 10
            args = [self.is_]
        am = eng.abstract_methods
        am['get_default_generic_frame_parsers'] = am['get_default_text_frame_parsers'] = self.nothing
        am['parse'] = self.parse
        am['inserter'] = self.nothing
        eng.model_overrides['begin'] = lambda eng, st, lv, *a: [(st, Opaque('begin', None))]
        return self.this, args, None

    def nothing(self, eng, st, t, vs, n):
        yield st, None

    def on(self, m):
        return (self.flags & m) != 0

    def fields(self, eng, st):
        o = eng.load(st, self.this).f
        g = [('version', o['version_'] == self.version), ('revision', o['revision_'] == self.revision)]
        u = o['unsync_'].f
        g.append(('unsynchronisation flag', z3.And(u['has'], u['val'] == self.on(0x80)) if u['val'] is not None else z3.BoolVal(False)))
        for k, m in self.FLAGS[self.ver]:
            g.append(('flag: ' + k.strip('_'), o[k] == self.on(m)))
        return g

    def parse(self, eng, st, t, vs, n):
        vs = [eng.rv(st, v) if i else v for i, v in enumerate(vs)]
        s = eng.load(st, self.is_)
        ob = lambda name, g: eng.oblige(st, 'reading the contents: ' + name, g, n, 'postcondition')
        ob('once', eng.load(st, self.calls) == 0)
        eng.storev(st, self.calls, z3.BitVecVal(1, 8))
        ob('from the end of the header', z3.And(s.f['pos'] == self.at, s.f['st'] == 0))
        ob('exception mask', s.f['exc'] == self.s0.f['exc'])
        ob('size', vs[1] == self.size)
        if self.ver > 2:
            ob('extended header', vs[2] == self.on(0x40))
            ob('no padding so far', eng.load(st, self.this).f['padding_'] == 0)
        for k, g in self.fields(eng, st):
            ob(k, g)
        for s1, ok in eng.fork(st, z3.Bool(fresh_name('contents_ok'))):
            yield s1, (None if ok else Throw('scribbu::error'))

    def post(self, eng, st, out, ctx):
        c = eng.load(st, self.calls)
        if out[0] == 'throw':
            return [('refused only if there is no tag or its contents are refused', z3.Or(z3.Not(self.ok), c == 1))]
        return [('contents read', c == 1), ('no tag is refused', self.ok)] + self.fields(eng, st)


CONTRACTS = [(TU % v, ExtHeader(v)) for v in (3, 4)] + [(TU % v, Construct(v, i)) for v in (2, 3, 4) for i in (False, True)]
CONTRACTS += [(TU % v, Parse(v, u, e)) for v in (2, 3, 4) for u in (False, True) for e in (False, True) if not (v == 4 and u or v == 2 and e)]
SEARCH_S = 6
ASSUMPTIONS = ['the stream is good on entry; tags are shorter than 2^28 bytes (all a header can declare)',
               'constructors from a stream alone: the header is complete and its size is not zero',
               'zlib: what a compressed frame decompresses to is what the library returns, at most the declared size',
               'resynchronisation: its result is that of the contract of P02',
               'which class a frame is read as is not part of this check (parse_frame: P20, the classes themselves: P16)',
               'encrypted frames: no encryption method is implemented, so tags with such frames are refused',
               'version 2.4 frames flagged unsynchronised are handed on as stored']
TRUSTED = ['parse_frame, get_default_*_frame_parsers: used through assumed contracts (may do anything to the list of frames, or refuse)']
