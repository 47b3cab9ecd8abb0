"""P10: play counters keep their value."""
import os
import z3
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P10.cc')
PC, POP = 'scribbu::play_count', 'scribbu::popularimeter'
MAX = 1 << 32


def big_endian(A, s, k):
    v = z3.BitVecVal(0, 64)
    for i in range(k):
        v = v * 256 + z3.ZeroExt(56, s.get(A, A.const(i)))
    return v


class Base(Contract):
    unroll = 5

    def __init__(self, cls):
        self.cls = cls

    def obj(self, eng, st):
        """an arbitrary frame"""
        A = eng.A
        o = eng.default_struct(st, eng.record(self.cls), 'frame')
        for f in ('counter_', 'email_'):
            if f in o.f:
                n = z3.Const(f + 'size', A.sort)
                st.assume(z3.And(n >= 0, n < A.const(1 << 40)))
                o = o.set(f, seq_sym(A, f, n, 8, 'vector'))
        return o

    def method(self, eng, name, nargs):
        fs = eng.tu.find(self.cls + '::' + name, lambda f: sum(1 for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl') == nargs)
        assert len(fs) == 1, (name, len(fs))
        return fs[0]

    def call(self, eng, st, lv, name, args):
        f = self.method(eng, name, len(args))
        return list(eng.call_fn(f, lv, args, st, f))

    def same(self, eng, a, b):
        """two sequences are equal: a goal for the length and one for an arbitrary index"""
        return [a.len == b.len, FA(lambda j: z3.Implies(z3.And(j >= 0, j < a.len), a.get(eng.A, j) == b.get(eng.A, j)), 'same')]


class Count(Base):
    """count(): the big-endian value, zero without a counter, an error beyond four bytes"""

    def __init__(self, cls):
        super().__init__(cls)
        self.qname = cls + '::count'

    def pick(self, f):
        return not any(c.get('kind') == 'ParmVarDecl' for c in f.get('inner', []))

    def pre(self, eng, st):
        o = self.obj(eng, st)
        lv = st.alloc(o, 'frame')
        return lv, [], {'o': o, 'A': eng.A}

    def post(self, eng, st, out, ctx):
        A, c = eng.A, ctx['o'].f['counter_']
        if out[0] == 'throw':
            return [('refused only beyond four bytes', c.len > 4), ('refused with std::domain_error', z3.BoolVal(out[1].ty == 'std::domain_error'))]
        v = eng.rv(st, out[1])
        return [('refused beyond four bytes', c.len <= 4)] + \
            [('%d-byte counter' % k, z3.Implies(c.len == k, v == big_endian(A, c, k))) for k in range(5)]

    def witness(self, ev, ctx):
        c = ctx['o'].f['counter_']
        n = min(ev(c.len), 6)
        return bytes([1 if self.cls == PC else 2, 0] + [ev(c.get(ctx['A'], ctx['A'].const(i))) & 255 for i in range(n)]).hex()


class Set(Base):
    """count(n) / inc(): then count() gives n, and so it does after write and parse"""

    def __init__(self, cls, inc):
        super().__init__(cls)
        self.inc = inc
        self.qname = cls + ('::inc' if inc else '::count')
        self.label = self.qname + ('' if inc else '(n)') + ', then count(), write(), parse'

    def pick(self, f):
        n = sum(1 for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl')
        return n == (0 if self.inc else 1)

    def pre(self, eng, st):
        o = self.obj(eng, st)
        A = eng.A
        if 'email_' in o.f:                  # an address does not contain the terminator
            e = o.f['email_']
            st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j < e.len), e.get(A, j) != 0), 'address'))
        lv = st.alloc(o, 'frame')
        if self.inc:
            c = o.f['counter_']
            st.assume(c.len <= 4)
            v = z3.BitVecVal(0, 64)
            for k in range(1, 5):
                v = z3.If(c.len == k, big_endian(A, c, k), v)
            n = v + 1
            st.assume(z3.ULT(n, MAX))
            args = []
        else:
            n = z3.BitVec('n', 64)
            st.assume(z3.ULT(n, MAX))
            args = [n]
        return lv, args, {'o': o, 'lv': lv, 'n': n, 'A': A}

    def post(self, eng, st, out, ctx):
        A, n, lv = eng.A, ctx['n'], ctx['lv']
        if out[0] == 'throw':
            return [('accepted', z3.BoolVal(False))]
        res = []
        o1 = eng.load(st, lv)
        for f in ('email_', 'rating_'):
            if f in o1.f and f == 'rating_':
                res.append(('rating kept', o1.f[f] == ctx['o'].f[f], st))
            elif f in o1.f:
                res += [('address kept', g, st) for g in self.same(eng, o1.f[f], ctx['o'].f[f])]
        for s, v in self.call(eng, st.clone(), lv, 'count', []):
            if isinstance(v, Throw):
                res.append(('counter can be read', z3.BoolVal(False), s))
            else:
                res.append(('counter read is the one set', eng.rv(s, v) == n, s))
        # written out and parsed again
        s0 = st.clone()
        os = s0.alloc(M.new_ostream(eng, s0), 'os')
        for s, w in self.call(eng, s0, lv, 'write', [os]):
            if isinstance(w, Throw):
                res.append(('can be written', z3.BoolVal(False), s))
                continue
            w = eng.rv(s, w)
            data = eng.load(s, os).f['out']
            res.append(('reported number of bytes', w == data.len, s))
            res.append(('size() is that number', self.one(eng, s, lv, 'size') == w, s))
            if 'email_' in o1.f:             # where the terminator stands
                s.add_T(o1.f['email_'].len)
            buf = s.alloc(Seq(data.sel, data.len, 8, 'vector', data.over), 'buf')
            new = s.alloc(eng.default_struct(s, eng.record(self.cls), 'parsed'), 'parsed')
            ctor = [f for f in eng.tu.find(self.cls + '::' + self.cls.split('::')[-1]) if 'const unsigned char *' in f['type']['qualType']]
            assert len(ctor) == 1
            for s2, v in eng.call_fn(ctor[0], new, [Ptr(buf, A.const(0)), Ptr(buf, data.len)], s.clone(), ctor[0]):
                if isinstance(v, Throw):
                    res.append(('can be parsed', z3.BoolVal(False), s2))
                    continue
                for s3, c in self.call(eng, s2.clone(), new, 'count', []):
                    if isinstance(c, Throw):
                        res.append(('counter can be read after parsing', z3.BoolVal(False), s3))
                    else:
                        res.append(('counter read after parsing is the one set', eng.rv(s3, c) == n, s3))
                o2 = eng.load(s2, new)
                if 'rating_' in o2.f:
                    res.append(('rating after parsing', o2.f['rating_'] == o1.f['rating_'], s2))
                    res += [('address after parsing', g, s2) for g in self.same(eng, o2.f['email_'], o1.f['email_'])]
        return res

    def one(self, eng, st, lv, name):
        ((s, v),) = self.call(eng, st.clone(), lv, name, [])
        return eng.rv(s, v)

    def witness(self, ev, ctx):
        n = (ev(ctx['n']) - (1 if self.inc else 0)) % MAX
        k = 3 if self.inc else 4
        return bytes([k if self.cls == PC else k + 2, 0] + [(n >> s) & 255 for s in (24, 16, 8, 0)]).hex()


class Write(Base):
    """write(): exactly the fields in order, and their number of bytes"""

    def __init__(self, cls):
        super().__init__(cls)
        self.qname = cls + '::write'

    def pre(self, eng, st):
        o = self.obj(eng, st)
        lv = st.alloc(o, 'frame')
        os = st.alloc(M.new_ostream(eng, st), 'os')
        return lv, [os], {'o': o, 'lv': lv, 'os': os, 'A': eng.A}

    def post(self, eng, st, out, ctx):
        A = eng.A
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o, w = ctx['o'].f, eng.load(st, ctx['os']).f['out']
        c = o['counter_']
        spec = c
        if 'email_' in o:
            e = o['email_']
            spec = Seq(lambda j: z3.If(j < e.len, e.get(A, j), z3.If(j == e.len, z3.BitVecVal(0, 8), z3.If(j == e.len + 1, o['rating_'], c.get(A, j - e.len - 2)))),
                       e.len + 2 + c.len, 8, 'vector')
        return [('bytes written: %s' % k, g) for k, g in zip(('number', 'each'), self.same(eng, w, spec))] + \
            [('reported number of bytes', eng.rv(st, out[1]) == w.len)]

    def witness(self, ev, ctx):
        A, o = ctx['A'], ctx['o'].f
        get = lambda s: [ev(s.get(A, A.const(i))) & 255 for i in range(min(ev(s.len), 8))]
        if self.cls == PC:
            return bytes([1, 0] + get(o['counter_'])).hex()
        e = [x for x in get(o['email_']) if x]
        return bytes([2, len(e)] + e + [ev(o['rating_'])] + get(o['counter_'])).hex()


class Parse(Base):
    """the parsing constructor: address up to the zero byte, rating, counter"""

    def __init__(self, cls):
        super().__init__(cls)
        self.qname = cls + '::' + cls.split('::')[-1]
        self.label = self.qname + '(bytes)'

    def pick(self, f):
        return 'const unsigned char *' in f['type']['qualType']

    def pre(self, eng, st):
        A = eng.A
        n, z = z3.Const('n', A.sort), z3.Const('z', A.sort)
        st.assume(z3.And(n >= 0, n < A.const(1 << 40)))
        d = seq_sym(A, 'payload', n, 8, 'vector')
        if self.cls == POP:      # well-formed: a terminated address and a rating
            st.assume(z3.And(z >= 0, z < A.const(1 << 40), z + 1 < n, d.get(A, z) == 0))
            st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j < z), d.get(A, j) != 0), 'first zero'))
            st.add_T(z)
        buf = st.alloc(d, 'buf')
        lv = st.alloc(eng.default_struct(st, eng.record(self.cls), 'frame'), 'frame')
        return lv, [Ptr(buf, A.const(0)), Ptr(buf, n)], {'d': d, 'z': z, 'lv': lv, 'A': A}

    def post(self, eng, st, out, ctx):
        A, d, z = eng.A, ctx['d'], ctx['z']
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, ctx['lv']).f
        if self.cls == PC:
            return [('counter', g) for g in self.same(eng, o['counter_'], d)]
        e = Seq(d.sel, z, 8, 'vector')
        c = Seq(lambda j: d.get(A, j + z + 2), d.len - z - 2, 8, 'vector')
        return [('address', g) for g in self.same(eng, o['email_'], e)] + [('rating', o['rating_'] == d.get(A, z + 1))] + \
            [('counter', g) for g in self.same(eng, o['counter_'], c)]

    def witness(self, ev, ctx):
        A, d = ctx['A'], ctx['d']
        if self.cls == PC:
            return bytes([1, 0] + [ev(d.get(A, A.const(i))) & 255 for i in range(min(ev(d.len), 5))]).hex()
        z = ev(ctx['z'])
        e = [(ev(d.get(A, A.const(i))) & 255) or 1 for i in range(min(z, 8))]
        return bytes([2, len(e)] + e + [ev(d.get(A, A.const(z + 1))) & 255] + [ev(d.get(A, A.const(z + 2 + i))) & 255 for i in range(min(ev(d.len) - z - 2, 6))]).hex()


class FromScratch(Base):
    """construction from values"""

    def __init__(self, cls):
        super().__init__(cls)
        self.qname = cls + '::' + cls.split('::')[-1]
        self.label = self.qname + '(values)'

    def pick(self, f):
        return f['type']['qualType'].split('(')[1].rstrip(')').endswith('size_t') or f['type']['qualType'].endswith('unsigned long)')

    def pre(self, eng, st):
        A = eng.A
        n = z3.BitVec('n', 64)
        st.assume(z3.ULT(n, MAX))
        lv = st.alloc(eng.default_struct(st, eng.record(self.cls), 'frame'), 'frame')
        k = z3.Const('own_size', A.sort)
        st.assume(z3.And(k >= 0, k < A.const(1 << 40)))
        own, r = seq_sym(A, 'own', k, 8, 'string'), z3.BitVec('rating', 8)
        args = [n] if self.cls == PC else [st.alloc(own, 'own'), r, n]
        return lv, args, {'lv': lv, 'n': n, 'own': own, 'r': r}

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        o = eng.load(st, ctx['lv']).f
        res = []
        if self.cls == POP:
            res = [('address', g, st) for g in self.same(eng, o['email_'], ctx['own'])] + [('rating', o['rating_'] == ctx['r'], st)]
        for s, v in self.call(eng, st.clone(), ctx['lv'], 'count', []):
            res.append(('counter', z3.BoolVal(False) if isinstance(v, Throw) else eng.rv(s, v) == ctx['n'], s))
        return res

    def witness(self, ev, ctx):
        n = ev(ctx['n'])
        return bytes([4 if self.cls == PC else 6, 0] + [(n >> s) & 255 for s in (24, 16, 8, 0)]).hex()


CONTRACTS = []
for _c in (PC, POP):
    CONTRACTS += [(TU, Count(_c)), (TU, Set(_c, False)), (TU, Set(_c, True)), (TU, Write(_c)), (TU, Parse(_c)), (TU, FromScratch(_c))]
