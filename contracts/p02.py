"""P02: unsynchronisation is reversible and leaves no false sync."""
import os
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc.spec import Transducer, TransLoop, prove

DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P02.cc')
D = 'scribbu::detail::'
FF = z3.BitVecVal(0xff, 8)


def sync(y):
    return z3.UGE(y, z3.BitVecVal(0xe0, 8))


def special(y):
    return z3.Or(sync(y), y == 0)


class Pair(Contract):
    """is_false_sync, needs_unsync: exactly the pairs the ID3v2 specification names"""

    def __init__(self, fn, pred):
        self.qname, self.pred = D + fn, pred

    def pre(self, eng, st):
        x, y = z3.BitVec('x', 8), z3.BitVec('y', 8)
        return None, [x, y], (x, y)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        return [('exactly the specified pairs', eng.to_bool(out[1]) == z3.And(ctx[0] == FF, self.pred(ctx[1])))]

    def witness(self, ev, ctx):
        return '01%02x%02x' % (ev(ctx[0]), ev(ctx[1]))


class Word(Contract):
    """count_syncs of a 32-bit word: pairs of adjacent bytes in the order written"""
    qname = D + 'count_syncs'
    label = D + 'count_syncs(word)'
    unroll = 5

    def pick(self, f):
        ps = [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        return len(ps) == 2

    def pre(self, eng, st):
        n, b = z3.BitVec('n', 32), z3.Bool('false_only')
        return None, [n, b], (n, b)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, b = ctx
        y = [z3.Extract(31 - 8 * i, 24 - 8 * i, n) for i in range(4)]
        tot = z3.BitVecVal(0, 64)
        for i in range(3):
            tot = tot + z3.If(z3.And(y[i] == FF, z3.If(b, sync(y[i + 1]), special(y[i + 1]))), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return [('number of pairs in the bytes written', out[1] == tot)]

    def witness(self, ev, ctx):
        return '02%02x%08x' % (1 if ev(ctx[1]) else 0, ev(ctx[0]))


def ev_bytes(ev, f, n):
    n = ev(n)
    if n is None or n > 4096:
        return None
    return ''.join('%02x' % ev(f(z3.IntVal(i))) for i in range(n))


class Range(Contract):
    """shared: an arbitrary input buffer"""
    mode = 'int'

    def buf(self, eng, st, kind='vector', signed=False):
        A = eng.A
        n = z3.Int('n')
        st.assume(z3.And(n >= 0, n < (1 << 60)))
        f = z3.Function('inp', z3.IntSort(), z3.BitVecSort(8))
        s = Seq(lambda j: f(j), n, 8, kind, None, signed)
        lv = st.alloc(s, 'input')
        st.add_T(n)
        st.add_T(n - 1)
        return lv, s, f, n


class Count(Range):
    """count_syncs of a range: the number of adjacent pairs that satisfy the predicate"""
    qname = D + 'count_syncs'

    def __init__(self, ty):
        self.ty = ty
        self.label = D + 'count_syncs(%s range)' % ty

    def pick(self, f):
        ps = [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        if len(ps) != 3:
            return False
        t = ps[0]['type'].get('desugaredQualType') or ps[0]['type']['qualType']
        return ('unsigned char' in t) == (self.ty == 'unsigned char')

    def pre(self, eng, st):
        lv, s, f, n = self.buf(eng, st, signed=self.ty == 'char')
        b = z3.Bool('false_only')
        self.fold = Transducer('count', z3.If(n > 0, n - 1, 0), lambda k: z3.If(z3.And(f(k) == FF, z3.If(b, sync(f(k + 1)), special(f(k + 1)))), z3.IntVal(1), z3.IntVal(0)))
        eng.axioms += self.fold.axioms()
        self.n, self.f = n, f
        return None, [Ptr(lv, z3.IntVal(0)), Ptr(lv, n), b], (n, f, b)

    def loops(self, eng, nd, st, fn):
        return TransLoop([self.fold], n=self.n, bits=[('element', self.f), ('is FF', lambda k: self.f(k) == FF)])

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, b = ctx
        return [('number of pairs', out[1] == self.fold.L(z3.If(n > 0, n - 1, 0)))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        h = ev_bytes(ev, ctx[1], ctx[0])
        return None if h is None else '03%02x%s' % (1 if ev(ctx[2]) else 0, h)


def unsync(n, f, last):
    return Transducer('unsync', n,
                      lambda k: z3.If(z3.And(f(k) == FF, z3.If(k + 1 < n, special(f(k + 1)), last)), z3.IntVal(2), z3.IntVal(1)),
                      lambda k, d: f(k) if d == 0 else z3.BitVecVal(0, 8), 1, 2, lambda k: f(k) != FF)


class Unsync(Range):
    """unsynchronise: every byte, and a zero after each 0xff that a zero or a byte of 0xe0 or more (or, if asked for, nothing) follows"""
    qname = D + 'unsynchronise'

    def pre(self, eng, st):
        A = eng.A
        lv, s, f, n = self.buf(eng, st)
        last = z3.Bool('last')
        m = z3.Int('old_size')
        st.assume(z3.And(m >= 0, m < (1 << 60)))
        old = seq_sym(A, 'old', m, 8, 'vector')
        o = st.alloc(old, 'output')
        self.tr = unsync(n, f, last)
        eng.axioms += self.tr.axioms()
        eng.term_gens.append(self.tr.terms)
        self.f, self.n = f, n
        return None, [BackInserter(o), Ptr(lv, z3.IntVal(0)), Ptr(lv, n), last], (n, f, last, o, old, lv, s)

    def loops(self, eng, nd, st, fn):
        return TransLoop([self.tr], n=self.n, bits=[('element', self.f), ('is FF', lambda k: self.f(k) == FF)])

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, last, o, old, lv, s = ctx
        A, t = eng.A, self.tr
        r = eng.load(st, o)
        g = [('returned length', out[1] == t.L(n)), ('output length', r.len == old.len + t.L(n)),
             ('earlier contents kept', FA(lambda j: z3.Implies(z3.And(j >= 0, j < old.len), r.get(A, j) == old.get(A, j)))),
             ('input kept', FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), eng.load(st, lv).get(A, j) == f(j)))),
             ('each byte, and a zero where needed', FA(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(
                 r.get(A, old.len + t.L(k)) == f(k), z3.Implies(t.w(k) == 2, r.get(A, old.len + t.L(k) + 1) == 0)))))]
        return g

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        h = ev_bytes(ev, ctx[1], ctx[0])
        return None if h is None else '04%02x%s' % (1 if ev(ctx[2]) else 0, h)


def resync(n, f):
    return Transducer('resync', n, lambda k: z3.If(z3.And(k > 0, f(k) == 0, f(k - 1) == FF), z3.IntVal(0), z3.IntVal(1)),
                      lambda k, d: f(k), 0, 1)


class Resync(Range):
    """resynchronise: drops exactly the zero bytes that follow an 0xff, in place"""
    qname = 'scribbu::resynchronise'

    def pre(self, eng, st):
        lv, s, f, n = self.buf(eng, st, 'array')
        self.tr = resync(n, f)
        eng.axioms += self.tr.axioms()
        self.f, self.n, self.s = f, n, s
        return None, [Ptr(lv, z3.IntVal(0)), n], (n, f, lv)

    def loops(self, eng, nd, st, fn):
        f = self.f
        return TransLoop([self.tr], folds=[('dropped', lambda k: k - self.tr.L(k))], n=self.n, inp=self.s,
                         preds=[('no FF 00', lambda j: z3.Not(z3.And(f(j) == FF, f(j + 1) == 0)))],
                         bits=[('element', f), ('is FF', lambda k: f(k) == FF)])

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, lv = ctx
        A, t = eng.A, self.tr
        r = eng.load(st, lv)
        return [('returned length', out[1] == t.L(n)),
                ('every other byte, in order', FA(lambda k: z3.Implies(z3.And(k >= 0, k < n, t.w(k) == 1), r.get(A, t.L(k)) == f(k))))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        h = ev_bytes(ev, ctx[1], ctx[0])
        return None if h is None else '0500%s' % h


def lemmas():
    """from the contracts to the property"""
    out = Transducer.lemmas()
    I = z3.IntSort()
    x, y, z = (z3.Function(c, I, z3.BitVecSort(8)) for c in 'xyz')
    n, k, i, last = z3.Int('n'), z3.Int('k'), z3.Int('i'), z3.Bool('last')
    U = unsync(n, x, last)
    m = U.L(n)
    R = resync(m, y)
    C = z3.Function('C', I, I)

    def ustep(k):
        return z3.Implies(z3.And(0 <= k, k < n), z3.And(U.L(k + 1) == U.L(k) + U.w(k), y(U.L(k)) == x(k),
                                                        z3.Implies(U.w(k) == 2, y(U.L(k) + 1) == 0), U.L(k + 1) <= m, U.L(k) >= k))
    def rstep(i):
        return z3.Implies(z3.And(0 <= i, i < m), z3.And(R.L(i + 1) == R.L(i) + R.w(i), z3.Implies(R.w(i) == 1, z(R.L(i)) == y(i))))
    base = [U.L(z3.IntVal(0)) == 0, R.L(z3.IntVal(0)) == 0, 0 <= k, k < n, ustep(k), ustep(k - 1), U.L(k) >= k]
    hyp = base + [R.L(U.L(k)) == k, rstep(U.L(k)), rstep(U.L(k) + 1)]
    out.append(prove('round trip: resynchronised position of group k+1 is k+1', hyp, R.L(U.L(k + 1)) == k + 1))
    out.append(prove('round trip: byte k is recovered', hyp, z(k) == x(k)))
    # every output position lies in one group
    g = z3.Int('g')
    out.append(prove('output positions: base', [U.L(z3.IntVal(0)) == 0, n > 0, ustep(z3.IntVal(0))], z3.And(U.L(z3.IntVal(0)) <= 0, 0 < U.L(z3.IntVal(1)))))
    out.append(prove('output positions: step', [0 <= g, g < n, U.L(g) <= i, i < U.L(g + 1), i + 1 < m, ustep(g), ustep(g + 1), z3.Implies(g + 1 == n, U.L(g + 1) == m)],
                     z3.Or(z3.And(U.L(g) <= i + 1, i + 1 < U.L(g + 1)), z3.And(g + 1 < n, U.L(g + 1) <= i + 1, i + 1 < U.L(g + 2)))))
    out.append(prove('no false sync in the output', [0 <= g, g < n, U.L(g) <= i, i < U.L(g + 1), i + 1 < m, ustep(g), ustep(g + 1), z3.Implies(g + 1 == n, U.L(g + 1) == m)],
                     z3.Not(z3.And(y(i) == FF, sync(y(i + 1))))))
    # bytes added = pairs counted (+ one for a trailing 0xff if asked for)
    pair = lambda k: z3.If(z3.And(x(k) == FF, special(x(k + 1))), z3.IntVal(1), z3.IntVal(0))
    out.append(prove('bytes added: step', [0 <= k, k < n - 1, ustep(k), C(k + 1) == C(k) + pair(k), U.L(k) == k + C(k)], U.L(k + 1) == k + 1 + C(k + 1)))
    out.append(prove('bytes added: last byte', [k == n - 1, k >= 0, ustep(k), U.L(k) == k + C(k)],
                     U.L(n) == n + C(n - 1) + z3.If(z3.And(last, x(n - 1) == FF), z3.IntVal(1), z3.IntVal(0))))
    return out


CONTRACTS = [
    (REPO + '/scribbu/framesv2.cc', Pair('is_false_sync', sync)), (REPO + '/scribbu/framesv2.cc', Pair('needs_unsync', special)),
    (REPO + '/scribbu/framesv2.cc', Word()),
    (DRV, Count('unsigned char')), (DRV, Count('char')), (DRV, Unsync()),
    (REPO + '/scribbu/id3v2.cc', Resync()),
]
SEARCH_S = 6
ASSUMPTIONS = ['buffers are shorter than 2^60 bytes']
