"""P16: frame contents survive being read and written, in the size reported."""
import os
import z3
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.cast import Unsupported
from cxxvc import models as M
from cxxvc.spec import Transducer, TransLoop, prove
from contracts.p02 import sync, special, FF

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P16.cc')
I = z3.IntSort()
S = 'scribbu::'
CAP = 1 << 40
Z8 = z3.BitVecVal(0, 8)

# what is written, in order: s bytes of a field, b one byte, l three bytes, 0 a terminating zero, n a terminator of one or two zeros
LAYOUT = {
    'unique_file_id': (1, [('s', 'owner_'), ('0', None), ('s', 'id_')]),
    'encryption_method': (2, [('s', 'email_'), ('0', None), ('b', 'method_symbol_'), ('s', 'data_')]),
    'user_defined_text': (3, [('b', 'unicode_'), ('s', 'description_'), ('n', None), ('s', 'text_')]),
    'comments': (4, [('b', 'unicode_'), ('l', 'lang_'), ('s', 'description_'), ('n', None), ('s', 'text_')]),
    'play_count': (5, [('s', 'counter_')]),
    'popularimeter': (6, [('s', 'email_'), ('0', None), ('b', 'rating_'), ('s', 'counter_')]),
    'private_frame': (7, [('s', 'email_'), ('0', None), ('s', 'contents_')]),
    'id3v2_2_text_frame': (8, [('b', 'unicode_'), ('s', 'text_')]),
    'id3v2_3_text_frame': (9, [('b', 'unicode_'), ('s', 'text_')]),
    'id3v2_4_text_frame': (10, [('b', 'unicode_'), ('s', 'text_')]),
    'unknown_id3v2_2_frame': (11, [('s', 'data_')]),
    'unknown_id3v2_3_frame': (12, [('s', 'data_')]),
    'unknown_id3v2_4_frame': (13, [('s', 'data_')]),
}


# frame classes that add only an identifier and flags to one of the above
WRAPPED = {
    'UFI': ('unique_file_id', 2), 'TXX': ('user_defined_text', 2), 'COM': ('comments', 2), 'CNT': ('play_count', 2), 'POP': ('popularimeter', 2),
    'UFID': ('unique_file_id', 3), 'ENCR': ('encryption_method', 3), 'TXXX': ('user_defined_text', 3), 'COMM': ('comments', 3),
    'PCNT': ('play_count', 3), 'POPM': ('popularimeter', 3), 'PRIV': ('private_frame', 3),
    'UFID_2_4': ('unique_file_id', 4), 'ENCR_2_4': ('encryption_method', 4), 'TXXX_2_4': ('user_defined_text', 4), 'COMM_2_4': ('comments', 4),
    'PCNT_2_4': ('play_count', 4), 'POPM_2_4': ('popularimeter', 4), 'PRIV_2_4': ('private_frame', 4),
}


def pieces(layout, o, cb, A):
    """(kind, field, offset, length, byte) of each piece"""
    off, out = z3.IntVal(0), []
    for k, f in layout:
        if k == 's':
            ln, get = o[f].len, lambda j, s=o[f]: s.get(A, j)
        elif k == 'l':
            ln, get = z3.IntVal(3), lambda j, s=o[f]: s.get(A, j)
        elif k == 'b':
            ln, get = z3.IntVal(1), lambda j, v=o[f]: v
        else:
            ln, get = z3.IntVal(cb if k == 'n' else 1), lambda j: Z8
        out.append((k, f, off, ln, get))
        off = z3.simplify(off + ln)
    return out, off


def content(ps):
    def W(j):
        r = Z8
        for k, f, off, ln, get in reversed(ps):
            r = z3.If(j < off + ln, get(j - off), r)
        return r
    return W


class Frame(Contract):
    mode = 'int'
    unroll = 4

    def __init__(self, cls, cb=1):
        self.cls, self.cb = cls, cb
        self.base, self.inver = WRAPPED.get(cls, (cls, None))
        self.code, self.layout = LAYOUT[self.base]
        self.terminated = any(k == 'n' for k, f in self.layout)

    def tag(self):
        return ', %d-byte terminator' % self.cb if self.terminated else ''

    def obj(self, eng, st):
        """an arbitrary frame"""
        A = eng.A
        o = eng.any_struct(st, eng.record(S + self.cls), 'frame')
        for k, f in self.layout:
            if k == 's':
                n = z3.Int(f + 'size')
                st.assume(z3.And(n >= 0, n < CAP))
                o = o.set(self.key(o, f), seq_sym(A, f, n, 8, 'vector'))
            elif k == 'l':
                o = o.set(f, seq_sym(A, f, z3.IntVal(3), 8, 'array'))
            elif k == 'b':
                o = o.set(f, z3.BitVec(f, 8))
        if self.terminated:
            o = o.set('cbnil_', z3.BitVecVal(self.cb, 8))
        self.o = o
        self.ps, self.N = pieces(self.layout, self.own(o), self.cb, A)
        self.W = content(self.ps)
        return o

    def key(self, o, f):
        k = f + '@' + S + self.base
        return k if k in o.f else f

    def own(self, o):
        """the fields of the layout"""
        return dict(o.f, **{f: o.f[self.key(o, f)] for k, f in self.layout if f})

    def small(self, ctx):
        fs = [ln for k, f, off, ln, get in self.ps if k == 's']
        return [z3.And(*[ln <= 2 for ln in fs]), z3.And(*[ln <= 8 for ln in fs])]

    def witness(self, ev, ctx):
        n = ev(self.N)
        if n is None or n > 200:
            return None
        return '%02x%02x' % (self.code, self.cb) + ''.join('%02x' % ev(self.W(z3.IntVal(i))) for i in range(n))


class Write(Frame):
    """the fields in order, with their terminators; the number of bytes returned"""

    def __init__(self, cls, cb=1):
        super().__init__(cls, cb)
        self.qname = S + cls + ('::write' if cls in PAYLOADS else '::serialize')
        self.label = self.qname + self.tag()

    def pre(self, eng, st):
        lv = st.alloc(self.obj(eng, st), 'frame')
        os = st.alloc(M.new_ostream(eng, st), 'os')
        return lv, [os], os

    def post(self, eng, st, out, os):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        A, w = eng.A, eng.load(st, os).f['out']
        for k, f, off, ln, get in self.ps:
            st.add_T(off)
        return [('number of bytes written', w.len == self.N), ('number of bytes returned', eng.rv(st, out[1]) == self.N),
                ('each byte written', FA(lambda j: z3.Implies(z3.And(j >= 0, j < self.N), w.get(A, j) == self.W(j))))]


class Size(Frame):
    """the number of bytes written"""

    def __init__(self, cls, cb=1):
        super().__init__(cls, cb)
        self.qname = S + cls + '::size'
        self.label = self.qname + self.tag()

    def pre(self, eng, st):
        return st.alloc(self.obj(eng, st), 'frame'), [], None

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        return [('number of bytes written', eng.rv(st, out[1]) == self.N)]


class Syncs(Frame):
    """serialized_size: with unsynchronisation, one more for each pair that needs it; needs_unsynchronisation: the number of false syncs"""

    def __init__(self, cls, fn, cb=1):
        super().__init__(cls, cb)
        self.fn = fn
        self.qname = S + cls + '::' + fn
        self.label = self.qname + self.tag()

    def pre(self, eng, st):
        lv = self.lv = st.alloc(self.obj(eng, st), 'frame')
        W, N = self.W, self.N
        mk = lambda nm, p: Transducer(nm, z3.If(N > 0, N - 1, 0), lambda k: z3.If(z3.And(W(k) == FF, p(W(k + 1))), z3.IntVal(1), z3.IntVal(0)))
        self.pairs = {True: mk('false_syncs', sync), False: mk('pairs', special)}
        self.only = self.fn == 'needs_unsynchronisation'
        eng.axioms += self.steps(self.only)
        for k, f, off, ln, get in self.ps:
            st.add_T(off)
            st.add_T(off - 1)
        st.add_T(z3.simplify(N - 1))
        eng.abstract_methods[S + 'detail::count_syncs'] = self.count
        self.unsync = z3.Bool('unsync')
        return lv, [] if self.only else [self.unsync], None

    def steps(self, only):
        ax = self.pairs[only].axioms()
        return ax + [ax[1].fn(z3.IntVal(k)) for k in range(5)]

    def count(self, eng, st, lv, vs, n):
        """contract of the range form (P02): the number of pairs within the range"""
        if len(vs) != 3:
            raise Unsupported('pairs of a word')
        a, b, only = eng.rv(st, vs[0]), eng.rv(st, vs[1]), z3.simplify(eng.to_bool(eng.rv(st, vs[2])))
        if not (z3.is_true(only) or z3.is_false(only)):
            raise Unsupported('kind of pairs not known')
        L = self.pairs[z3.is_true(only)].L
        if z3.is_true(only) != self.only:
            eng.axioms += self.steps(not self.only)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and a.lv.same(b.lv)):
            raise Unsupported('pairs of a range of something else')
        for k, f, off, ln, get in self.ps:
            if k in 'sl' and a.lv.same(self.lv.field(f)):
                eng.oblige(st, 'range within the field', z3.And(a.off >= 0, a.off <= b.off, b.off <= ln), n)
                r = z3.If(b.off > a.off, L(off + b.off - 1) - L(off + a.off), 0)
                for t in (off + b.off - 1, off + a.off):
                    st.add_T(z3.simplify(t))
                yield st, r
                return
        raise Unsupported('pairs of a range of something else')

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        N, r = self.N, eng.rv(st, out[1])
        L = self.pairs[self.only].L
        tot = z3.If(N > 0, L(N - 1), 0)
        st.add_T(z3.simplify(N - 1))
        if self.only:
            return [('number of false syncs written', r == tot)]
        return [('bytes written after unsynchronisation', z3.Implies(self.unsync, r == N + tot)),
                ('bytes written', z3.Implies(z3.Not(self.unsync), r == N))]


class FindNull(Contract):
    """the first aligned null of the width given, or the end"""
    qname = S + 'detail::find_trailing_null'
    mode = 'int'

    def __init__(self, cb):
        self.cb = cb
        self.label = self.qname + ' (%d)' % cb

    def pre(self, eng, st):
        n = self.n = z3.Int('n')
        a = self.a = z3.Int('start')
        st.assume(z3.And(a >= 0, a <= n, n < CAP))
        f = self.f = z3.Function('bytes', I, z3.BitVecSort(8))
        lv = st.alloc(Seq(lambda j: f(j), n, 8, 'array'), 'bytes')
        return None, [z3.IntVal(self.cb), Ptr(lv, a), Ptr(lv, n)], lv

    def null(self, j):
        f, a, n = self.f, self.a, self.n
        return f(j) == 0 if self.cb == 1 else z3.And((j - a) % 2 == 0, j + 1 < n, f(j) == 0, f(j + 1) == 0)

    def loops(self, eng, nd, st, fn):
        def aligned(eng, inst, entry, head, modified, ps, vs):
            for u in vs:
                c = ('%s aligned' % u.name, lambda st, u=u: (u.fn(st) - self.a) % 2 == 0, 0)
                inst.cands.append(c)
                inst.phases[0].append(c)
        return TransLoop(n=self.n, preds=[('no null', lambda j: z3.Not(self.null(j)))], extra=[aligned] if self.cb == 2 else [])

    def post(self, eng, st, out, lv):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        p = eng.rv(st, out[1])
        if not (isinstance(p, Ptr) and p.lv is not None and p.lv.same(lv)):
            return [('within the range', z3.BoolVal(False))]
        r = p.off
        st.add_T(r)
        return [('within the range', z3.And(self.a <= r, r <= self.n)), ('a null or the end', z3.Or(r == self.n, self.null(r))),
                ('the first one', FA(lambda j: z3.Implies(z3.And(j >= self.a, j < r), z3.Not(self.null(j)))))]

    def small(self, ctx):
        return [self.n - self.a <= 3, self.n - self.a <= 8]

    def witness(self, ev, ctx):
        a, n = ev(self.a), ev(self.n)
        if n - a > 200:
            return None
        return '03%02x%02x' % (self.cb, self.cb - 1) + ''.join('%02x' % ev(self.f(z3.IntVal(a + i))) for i in range(n - a))


class Parse(Frame):
    """each field is the part of the bytes that the layout gives it; nothing beyond them is read"""

    def __init__(self, cls, ver=None):
        super().__init__(cls)
        self.ver = ver
        self.qname = S + cls + '::' + cls
        self.label = self.qname + '(bytes)' + (' v2.%d' % ver if ver else '')

    def pick(self, f):
        t = f['type']['qualType']
        ps = [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        ts = [(c['type'].get('desugaredQualType') or c['type']['qualType']) for c in ps]
        if sum('const unsigned char *' in x for x in ts) != 2:
            return False
        return '_frame' not in self.cls or self.cls == 'private_frame' or 'frame_id' in ts[0]

    def pre(self, eng, st):
        A = eng.A
        n = self.n = z3.Int('n')
        st.assume(z3.And(n >= 0, n < CAP))
        f = self.f = z3.Function('payload', I, z3.BitVecSort(8))
        buf = self.buf = st.alloc(Seq(lambda j: f(j), n, 8, 'array'), 'payload')
        st.add_T(n)
        o = eng.default_struct(st, eng.record(S + self.cls), 'frame')
        lv = st.alloc(o, 'frame')
        fns = [g for g in eng.tu.find(self.qname) if self.pick(g)]
        args, it = [], 0
        for c in fns[0]['inner']:
            if c.get('kind') != 'ParmVarDecl':
                continue
            t = c['type'].get('desugaredQualType') or c['type']['qualType']
            if 'const unsigned char *' in t:
                args.append(Ptr(buf, z3.IntVal(0) if not it else n))
                it += 1
            elif 'version' in t:
                args.append(z3.BitVecVal(self.version(eng), 32))
            else:
                v = argument(eng, st, t, c.get('name', 'arg'))
                args.append(st.alloc(v, c.get('name', 'arg')) if '&' in t else v)
        eng.abstract_methods[S + 'detail::find_trailing_null'] = self.find_null
        self.nul = None
        return lv, args, lv

    def version(self, eng):
        return eng.tu.enums[S + 'id3v2_version']['v%d' % self.ver]

    def wide(self):
        """does the text encoding have two-byte units?"""
        u = self.f(z3.IntVal(0))
        return z3.And(self.n > 0, u != 0 if self.ver in (2, 3) else z3.And(u != 0, u != 3))

    def find_null(self, eng, st, lv, vs, n):
        """its contract (FindNull); the width must be known"""
        w, p, q = (eng.rv(st, v) for v in vs)
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.lv.same(self.buf) and q.lv.same(self.buf)):
            raise Unsupported('search in something else')
        f, a, e = self.f, p.off, q.off
        eng.oblige(st, 'range searched within the bytes', z3.And(0 <= a, a <= e, e <= self.n), n)
        eng.oblige(st, 'width of a null', z3.Or(w == 1, w == 2), n)
        r = eng.A.fresh('found')
        null = lambda j: z3.If(w == 1, f(j) == 0, z3.And((j - a) % 2 == 0, j + 1 < e, f(j) == 0, f(j + 1) == 0))
        st.assume(z3.And(a <= r, r <= e))
        st.assume(z3.Or(r == e, null(r)))
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= a, j < r), z3.Not(null(j))), 'find'))
        st.add_T(r)
        yield st, Ptr(p.lv, r)

    def spec(self, A, o):
        """goals: the fields are the parts of the payload"""
        f, n = self.f, self.n
        g = []

        def part(name, s, start, ln):
            g.append((name + ' length', s.len == ln))
            g.append((name, FA(lambda j: z3.Implies(z3.And(j >= start, j < start + ln), s.get(A, j - start) == f(j)))))

        def byte(name, v, i):
            g.append((name, v == z3.If(i < n, f(z3.simplify(i)), Z8)))
        lay = [x for x in self.layout]
        pos = z3.IntVal(0)
        have = z3.BoolVal(True)
        while lay:
            k, fl = lay.pop(0)
            nm = fl.rstrip('_').replace('_', ' ') if fl else None
            if k == 'b':
                byte(nm, o[fl], pos)
                have = pos < n
                pos = z3.simplify(pos + 1)
            elif k == 'l':
                for i in range(3):
                    g.append((nm, o[fl].get(A, z3.IntVal(i)) == z3.If(pos + 3 <= n, f(z3.simplify(pos + i)), Z8)))
                have = pos + 3 <= n
                pos = z3.simplify(pos + 3)
            elif k == 's' and not lay:
                part(nm, o[fl], pos, z3.If(z3.And(have, n > pos), n - pos, 0))
            else:       # up to a terminator
                t, _ = lay.pop(0)
                s = o[fl]
                r = s.len
                if t == '0':
                    w, wide = z3.IntVal(1), z3.BoolVal(False)
                else:
                    wide = self.wide()
                    w = z3.If(wide, z3.IntVal(2), z3.IntVal(1))
                    g.append(('width of the terminator', o['cbnil_'] == z3.If(wide, z3.BitVecVal(2, 8), z3.BitVecVal(1, 8))))
                a = pos
                null = lambda j: z3.If(wide, z3.And((j - a) % 2 == 0, j + 1 < n, f(j) == 0, f(j + 1) == 0), f(j) == 0)
                g.append((nm + ' within the bytes', z3.If(z3.And(have, n > a), z3.And(r >= 0, a + r <= n), r == 0)))
                g.append((nm, FA(lambda j: z3.Implies(z3.And(j >= a, j < a + r), z3.And(s.get(A, j - a) == f(j), z3.Not(null(j)))))))
                g.append((nm + ' ends at the terminator', z3.Implies(z3.And(have, n > a, a + r < n), null(a + r))))
                have = z3.And(have, a + r + w <= n)
                pos = a + r + w
        return g, have, pos

    def post(self, eng, st, out, lv):
        A = eng.A
        if out[0] == 'throw':
            u = self.f(z3.IntVal(0))
            if self.base == 'comments':
                return [('refused only for an unknown encoding', z3.And(self.n > 0, z3.UGT(u, 1 if self.ver < 4 else 3))),
                        ('refused with bad_unicode_value', z3.BoolVal(out[1].ty.endswith('bad_unicode_value')))]
            return [('accepted', z3.BoolVal(False))]
        o = self.own(eng.load(st, lv))
        g, have, pos = self.spec(A, o)
        for k, fl in self.layout:
            if k == 's':
                st.add_T(o[fl].len)
        if self.base == 'comments':
            g.append(('unknown encodings refused', z3.Implies(self.n > 0, z3.ULE(self.f(z3.IntVal(0)), 1 if self.ver < 4 else 3))))
        return g

    def small(self, ctx):
        return [self.n <= 2, self.n <= 5, self.n <= 12]

    def witness(self, ev, ctx):
        n = ev(self.n)
        if n is None or n > 200:
            return None
        return '%02x%02x' % (self.code, 0x80 + (self.ver or 0)) + ''.join('%02x' % ev(self.f(z3.IntVal(i))) for i in range(n))


def argument(eng, st, t, name):
    """an arbitrary argument of the type"""
    t = t.replace('const ', '').replace('&', '').strip()
    if t in ('id_type', 'boost::optional<unsigned char>'):
        return Opt('optional', {'has': z3.Bool(name), 'val': z3.BitVec(name + '_value', 8)})
    if t in ('opt_sz_type', 'dli_type') or t.startswith('boost::optional<'):
        return Opt('optional', {'has': z3.Bool(name), 'val': z3.Int(name + '_value')})
    return eng.default_value(st, t, name)


class Create(Parse):
    """the frame made from the bytes in a tag: its fields, its identifier and its flags"""

    def __init__(self, cls, ver):
        super().__init__(cls, ver)
        self.qname = S + cls + '::create'
        self.label = None

    def pick(self, f):
        return True

    def pre(self, eng, st):
        n = self.n = z3.Int('n')
        st.assume(z3.And(n >= 0, n < CAP))
        f = self.f = z3.Function('payload', I, z3.BitVecSort(8))
        buf = self.buf = st.alloc(Seq(lambda j: f(j), n, 8, 'array'), 'payload')
        st.add_T(n)
        self.args = []
        out = []
        for c in eng.tu.find(self.qname)[0]['inner']:
            if c.get('kind') != 'ParmVarDecl':
                continue
            t = c['type'].get('desugaredQualType') or c['type']['qualType']
            if 'const unsigned char *' in t:
                out.append(Ptr(buf, z3.IntVal(0)))
                continue
            if len(out) == 2:
                out.append(n)
                continue
            v = argument(eng, st, t, 'arg%d' % len(out))
            self.args.append(v)
            out.append(st.alloc(v, 'arg%d' % len(out)) if '&' in t else v)
        eng.abstract_methods[S + 'detail::find_trailing_null'] = self.find_null
        return None, out, None

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return super().post(eng, st, out, None)
        p = eng.rv(st, out[1])
        if not (isinstance(p, Ptr) and p.lv is not None):
            return [('a frame is made', z3.BoolVal(False))]
        fr = eng.load(st, p.lv)
        g = super().post(eng, st, out, p.lv)
        g.append(('class of the frame', z3.BoolVal(fr.cls == S + self.cls)))
        return g + self.flags(eng, st, fr)

    def flags(self, eng, st, o):
        A, a = eng.A, self.args

        def same(name, x, y):
            if isinstance(x, Opt):
                return (name, z3.And(x.f['has'] == y.f['has'], z3.Implies(x.f['has'], x.f['val'] == y.f['val'])))
            return (name, x == y)
        k = 3 if self.ver == 2 else 4
        idf = o.f['id_'].f['id_']
        want = [z3.BitVecVal(ord(c), 8) for c in self.cls[:k]] if self.cls in WRAPPED else [a[0].f['id_'].get(A, z3.IntVal(i)) for i in range(k)]
        g = [('identifier', z3.And(*[idf.get(A, z3.IntVal(i)) == want[i] for i in range(k)]))]
        if self.ver == 2:
            return g
        f = lambda k: o.f[k]
        g += [same('tag alteration flag', f('tap_'), a[1]), same('file alteration flag', f('fap_'), a[2]), same('read-only flag', f('read_only_'), a[3]),
             same('encryption method', f('enc_method_'), a[4]), same('group', f('group_id_'), a[5])]
        if self.ver == 3:
            g += [('compressed', f('compressed_') == a[6].f['has'])]
        else:
            g += [same('compressed', f(k), a[6]) for k in o.f if k.split('@')[0] == 'compressed_']
            g += [ same('unsynchronised', f('unsynchronised_'), a[7]), same('data length', f('data_len_indicator_'), a[8])]
        return g


def lemmas():
    out = Transducer.lemmas()
    # the pairs within a field, counted in the field or in the content
    LF, L, F, W = z3.Function('field_L', I, I), z3.Function('content_L', I, I), z3.Function('field', I, z3.BitVecSort(8)), z3.Function('content', I, z3.BitVecSort(8))
    k, o, a, b = z3.Ints('k o a b')
    pair = lambda x, y: z3.If(z3.And(x == FF, special(y)), z3.IntVal(1), z3.IntVal(0))
    hyp = [LF(k + 1) == LF(k) + pair(F(a + k), F(a + k + 1)), L(o + a + k + 1) == L(o + a + k) + pair(W(o + a + k), W(o + a + k + 1)),
           F(a + k) == W(o + a + k), F(a + k + 1) == W(o + a + k + 1)]
    out.append(prove('pairs of a field: base', [k == 0, LF(k) == 0], LF(k) == L(o + a + k) - L(o + a)))
    out.append(prove('pairs of a field: step', hyp + [LF(k) == L(o + a + k) - L(o + a)], LF(k + 1) == L(o + a + k + 1) - L(o + a)))
    # what is parsed from well-formed bytes is written as those bytes
    A = Arith('int')
    for cls, (code, lay) in LAYOUT.items():
        for cb in ((1, 2) if any(x == 'n' for x, _ in lay) else (1,)):
            fr = Parse(cls, 3 if any(x == 'n' for x, _ in lay) else None)
            fr.n, fr.f = z3.Int('n'), z3.Function('payload', I, z3.BitVecSort(8))
            if cb:
                fr.wide = lambda cb=cb: z3.BoolVal(cb == 2)
            ob = {}
            for x, f in lay:
                if x in 'sl':
                    ob[f] = seq_sym(A, f, z3.Int(f + 'size') if x == 's' else z3.IntVal(3), 8)
                elif x == 'b':
                    ob[f] = z3.BitVec(f, 8)
            ob['cbnil_'] = z3.BitVecVal(cb, 8)
            g, have, pos = fr.spec(A, ob)
            ps, N = pieces(lay, ob, cb, A)
            j = z3.Int('j')
            hyps = [fr.n >= 0, have]
            # well formed: every fixed part is there
            for x, f, off, ln, get in ps:
                if x != 's':
                    hyps.append(off + ln <= fr.n)
            for nm, gl in g:
                if isinstance(gl, FA):
                    hyps.append(gl.fn(j))
                else:
                    hyps.append(gl)
            for x, f, off, ln, get in ps:
                if x == 's':
                    hyps.append(ob[f].len >= 0)
            nm = 'parsed and written: %s (%d)' % (cls, cb)
            out.append(prove(nm + ', length', hyps, N == fr.n))
            out.append(prove(nm + ', bytes', hyps + [j >= 0, j < N], content(ps)(j) == fr.f(j)))
    return out


PAYLOADS = ('unique_file_id', 'encryption_method', 'user_defined_text', 'comments', 'play_count', 'popularimeter', 'private_frame')
CONTRACTS = [(TU, FindNull(1)), (TU, FindNull(2))]
for _c in LAYOUT:
    _t = any(k == 'n' for k, f in LAYOUT[_c][1])
    for _cb in ((1, 2) if _t else (1,)):
        CONTRACTS += [(TU, Write(_c, _cb)), (TU, Size(_c, _cb))]
        if _c in PAYLOADS:
            CONTRACTS += [(TU, Syncs(_c, 'serialized_size', _cb)), (TU, Syncs(_c, 'needs_unsynchronisation', _cb))]
    CONTRACTS += [(TU, Parse(_c, v)) for v in ((2, 3, 4) if _t else (None,))]
for _c, (_b, _v) in WRAPPED.items():
    for _cb in ((1, 2) if any(k == 'n' for k, f in LAYOUT[_b][1]) else (1,)):
        CONTRACTS += [(TU, Write(_c, _cb)), (TU, Size(_c, _cb))]
    CONTRACTS.append((TU, Create(_c, _v)))
CONTRACTS += [(TU, Create('id3v2_%d_text_frame' % v, v)) for v in (2, 3, 4)]
SEARCH_S = 5
ASSUMPTIONS = ['fields and payloads are shorter than 2^40 bytes', 'the terminator width of a frame is 1 or 2 (as the parsing and the converting constructors set it)',
               'pairs within a field are counted as the contract of the range form of the count says (proved under P02)']
