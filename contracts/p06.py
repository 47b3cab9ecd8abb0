"""P06: URL encoding round-trips every text and emits only safe characters."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.spec import Transducer, TransLoop, char_map, char_transducer, prove

TU = REPO + '/scribbu/scribbu.cc'
I = z3.IntSort()


def B(x):
    return z3.BitVecVal(x if isinstance(x, int) else ord(x), 8)


def rng(x, a, b):
    return z3.And(z3.UGE(x, B(a)), z3.ULE(x, B(b)))


def unreserved(c):
    return z3.Or(rng(c, 'A', 'Z'), rng(c, 'a', 'z'), rng(c, '0', '9'), c == B('-'), c == B('_'), c == B('.'), c == B('~'))


def is_hex(h):
    return z3.Or(rng(h, '0', '9'), rng(h, 'a', 'f'), rng(h, 'A', 'F'))


def hexval(h):
    return z3.If(rng(h, '0', '9'), h - B('0'), z3.If(rng(h, 'a', 'f'), h - B(87), h - B(55)))


def safe_group(c, g):
    """a character of the text, as the property allows it to be encoded"""
    if len(g) == 1:
        return z3.And(g[0] == c, unreserved(c))
    if len(g) == 3:
        return z3.And(g[0] == B('%'), is_hex(g[1]), is_hex(g[2]), hexval(g[1]) * 16 + hexval(g[2]) == c, z3.Not(unreserved(c)))
    return z3.BoolVal(False)


class One(Contract):
    """each character is encoded as itself if unreserved, otherwise as '%' and its two hexadecimal digits"""
    qname = 'scribbu::urlencode'
    label = qname + ' (one character)'
    mode = 'int'
    unroll = 3

    def pre(self, eng, st):
        c = z3.BitVec('c', 8)
        return None, [st.alloc(seq_const(eng.A, [c], 'string'), 'text')], c

    def post(self, eng, st, out, c):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        v = eng.rv(st, out[1])
        n = eng.A.is_const(v.len)
        return [('safe characters that stand for that character', safe_group(c, [v.get(eng.A, eng.A.const(i)) for i in range(n or 0)]))]

    def witness(self, ev, c):
        return '01%02x' % ev(c)


def text(eng, st, contract):
    n = z3.Int('n')
    st.assume(z3.And(n >= 0, n < (1 << 50)))
    f = z3.Function('text', I, z3.BitVecSort(8))
    lv = st.alloc(Seq(lambda j: f(j), n, 8, 'string', None, True), 'text')
    st.add_T(n)
    return n, f, lv


def ev_text(ev, ctx):
    n, f = ev(ctx[0]), ctx[1]
    return None if n is None or n > 4096 else ''.join('%02x' % ev(f(z3.IntVal(i))) for i in range(n))


class Encode(Contract):
    """the encoding is the groups of the text's characters, in order, and nothing else"""
    qname = 'scribbu::urlencode'
    mode = 'int'

    def pre(self, eng, st):
        c, cmap = char_map(eng, eng.fn)
        n, f, lv = text(eng, st, self)
        self.tr = char_transducer('enc', n, f, c, cmap)
        eng.axioms += self.tr.axioms()
        self.n = n
        return None, [lv], (n, f, lv)

    def loops(self, eng, nd, st, fn):
        return TransLoop([self.tr], n=self.n)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, lv = ctx
        A, t = eng.A, self.tr
        r = eng.rv(st, out[1])
        return [('length', r.len == t.L(n)),
                ('the group of each character, in order', FA(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(
                    *[z3.Implies(t.w(k) > d, r.get(A, t.L(k) + d) == t.emit(k, d)) for d in range(t.wmax)]))))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        h = ev_text(ev, ctx)
        return None if h is None else '01' + h


# the decoder: what is pending before position j.  0 nothing, 1 a '%', 2 a '%' and one digit, 3 the text is wrong
def delta(s, c):
    return z3.If(s == 0, z3.If(c == B('%'), 1, 0), z3.If(s == 1, z3.If(c == B('%'), 0, z3.If(is_hex(c), 2, 3)),
                 z3.If(s == 2, z3.If(is_hex(c), 0, 3), z3.IntVal(3))))


class Scan:
    def __init__(self, name, n, f):
        S = self.S = z3.Function(name + '_S', I, I)
        self.n, self.f = n, f
        self.tr = Transducer(name, n, lambda j: z3.If(delta(S(j), f(j)) == 0, z3.IntVal(1), z3.IntVal(0)),
                             lambda j, d: z3.If(S(j) == 2, hexval(f(j - 1)) * 16 + hexval(f(j)), f(j)), 0, 1)

    def axioms(self):
        S, f, n = self.S, self.f, self.n
        return self.tr.axioms() + [
            S(z3.IntVal(0)) == 0,
            FA(lambda j: z3.Implies(z3.And(0 <= j, j < n), S(j + 1) == delta(S(j), f(j))), 'scan step'),
            FA(lambda j: z3.Implies(z3.And(0 <= j, j <= n), z3.And(S(j) >= 0, S(j) <= 3)), 'scan range'),
            FA(lambda a, b: z3.Implies(z3.And(0 <= a, a <= b, b <= n, S(a) == 3), S(b) == 3), 'scan error stays', 2)]


class Decode(Contract):
    """urldecode: each character as itself, '%%' as '%', '%' and two digits as that byte; anything else refused"""
    qname = 'scribbu::urldecode'
    mode = 'int'

    def pre(self, eng, st):
        n, f, lv = text(eng, st, self)
        self.sc = Scan('dec', n, f)
        eng.axioms += self.sc.axioms()
        self.n = n
        return None, [lv], (n, f, lv)

    def loops(self, eng, nd, st, fn):
        S = self.sc.S
        return TransLoop([self.sc.tr], n=self.n, ahead=2, bits=[('% pending', lambda k: S(k) == 1)],
                         preds=[('nothing or % pending', lambda k: z3.Or(S(k) == 0, S(k) == 1)), ('nothing pending', lambda k: S(k) == 0)])

    def post(self, eng, st, out, ctx):
        n, f, lv = ctx
        A, t, S = eng.A, self.sc.tr, self.sc.S
        if out[0] == 'throw':
            return [('refuses only wrong text', S(n) != 0)]
        r = eng.rv(st, out[1])
        return [('accepts only right text', S(n) == 0), ('length', r.len == t.L(n)),
                ('decoded characters, in order', FA(lambda k: z3.Implies(z3.And(k >= 0, k < n, t.w(k) == 1), r.get(A, t.L(k)) == t.emit(k, 0))))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        h = ev_text(ev, ctx)
        return None if h is None else '02' + h


def lemmas():
    """from the contracts to the round trip, for any encoding made of safe groups"""
    out = Transducer.lemmas()
    s, c = z3.Int('s'), z3.BitVec('c', 8)
    out.append(prove('decoder: state range', [s >= 0, s <= 3], z3.And(delta(s, c) >= 0, delta(s, c) <= 3)))
    out.append(prove('decoder: error stays', [s == 3], delta(s, c) == 3))
    k, p = z3.Int('k'), z3.Int('p')     # group k of the encoding begins at p
    y, z = z3.Function('y', I, z3.BitVecSort(8)), z3.Function('z', I, z3.BitVecSort(8))
    sc = Scan('rt', z3.Int('m'), y)
    L, S = sc.tr.L, sc.S

    def step(j):
        return z3.And(S(j + 1) == delta(S(j), y(j)), L(j + 1) == L(j) + sc.tr.w(j), z3.Implies(sc.tr.w(j) == 1, z(L(j)) == sc.tr.emit(j, 0)))
    for ln in (1, 3):
        hyp = [safe_group(c, [y(p + d) for d in range(ln)]), S(p) == 0, L(p) == k] + [step(p + d) for d in range(ln)]
        out.append(prove('round trip: group of %d bytes' % ln, hyp, z3.And(S(p + ln) == 0, L(p + ln) == k + 1, z(k) == c)))
    return out


CONTRACTS = [(TU, One()), (TU, Encode()), (TU, Decode())]
SEARCH_S = 4
ASSUMPTIONS = ['texts are shorter than 2^50 bytes']
