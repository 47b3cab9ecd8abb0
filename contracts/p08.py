"""P08: JSON strings are valid and decode to the text that was printed."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.spec import Transducer, TransLoop, char_map, char_transducer, prove

TU = REPO + '/scribbu/json-pprinter.cc'
SHORT = [(0x22, 0x22), (0x5c, 0x5c), (0x2f, 0x2f), (ord('b'), 8), (ord('f'), 12), (ord('n'), 10), (ord('r'), 13), (ord('t'), 9)]


def B(x):
    return z3.BitVecVal(x if isinstance(x, int) else ord(x), 8)


def hexval(h, v):
    """h is a hexadecimal digit of value v (an 8-bit term)"""
    return z3.Or(z3.And(z3.UGE(h, B('0')), z3.ULE(h, B('9')), v == h - B('0')), z3.And(z3.UGE(h, B('a')), z3.ULE(h, B('f')), v == h - B(87)),
                 z3.And(z3.UGE(h, B('A')), z3.ULE(h, B('F')), v == h - B(55)))


def reads_back(c, g):
    """a JSON reader takes the bytes g for exactly the character c"""
    if len(g) == 1:
        return z3.And(g[0] == c, z3.UGE(c, B(0x20)), c != B(0x22), c != B(0x5c))
    if len(g) == 2:
        return z3.And(g[0] == B(0x5c), z3.Or(*[z3.And(g[1] == B(e), c == B(v)) for e, v in SHORT]))
    if len(g) == 6:
        return z3.And(g[0] == B(0x5c), g[1] == B('u'), g[2] == B('0'), g[3] == B('0'), z3.ULT(c, B(0x80)),
                      hexval(g[4], z3.LShR(c, B(4))), hexval(g[5], c & B(15)))
    return z3.BoolVal(False)


class One(Contract):
    """the group of bytes made of each character reads back as that character"""
    qname = 'scribbu::json_pprinter::escape'
    label = qname + ' (one character)'
    mode = 'int'
    unroll = 3

    def pre(self, eng, st):
        c = z3.BitVec('c', 8)
        return None, [st.alloc(seq_const(eng.A, [c], 'string'), 'text')], c

    def post(self, eng, st, out, c):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        v = eng.rv(st, out[1])
        n = eng.A.is_const(v.len)
        return [('valid, and read back as that character', reads_back(c, [v.get(eng.A, eng.A.const(i)) for i in range(n or 0)]))]

    def witness(self, ev, c):
        return '%02x' % ev(c)


class Whole(Contract):
    """the escaped text is the groups of its characters, in order, and nothing else"""
    qname = 'scribbu::json_pprinter::escape'
    mode = 'int'

    def pre(self, eng, st):
        c, cmap = char_map(eng, eng.fn)
        n = z3.Int('n')
        st.assume(z3.And(n >= 0, n < (1 << 50)))
        f = z3.Function('text', z3.IntSort(), z3.BitVecSort(8))
        lv = st.alloc(Seq(lambda j: f(j), n, 8, 'string', None, True), 'text')
        st.add_T(n)
        self.tr = char_transducer('esc', n, f, c, cmap)
        eng.axioms += self.tr.axioms()
        self.n = n
        return None, [lv], (n, f, lv)

    def loops(self, eng, nd, st, fn):
        return TransLoop([self.tr], n=self.n)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, lv = ctx
        A, t = eng.A, self.tr
        r = eng.rv(st, out[1])
        return [('length', r.len == t.L(n)),
                ('the group of each character, in order', FA(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(
                    *[z3.Implies(t.w(k) > d, r.get(A, t.L(k) + d) == t.emit(k, d)) for d in range(t.wmax)]))))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        n, f, lv = ctx
        n = ev(n)
        if n is None or n > 4096:
            return None
        return ''.join('%02x' % ev(f(z3.IntVal(i))) for i in range(n))


def lemmas():
    return Transducer.lemmas()


CONTRACTS = [(TU, One()), (TU, Whole())]
SEARCH_S = 4
ASSUMPTIONS = ['texts are shorter than 2^50 bytes']
