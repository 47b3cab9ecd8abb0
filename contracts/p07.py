"""P07: CSV fields parse back to the text that was printed."""
import z3
from cxxvc.cast import REPO, TU as TUnit
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.spec import Transducer, TransLoop, prove

TU = REPO + '/scribbu/csv-pprinter.cc'
I = z3.IntSort()


def B(x):
    return z3.BitVecVal(x if isinstance(x, int) else ord(x), 8)


def doubled(n, f, esc):
    return Transducer('csv', n, lambda k: z3.If(f(k) == esc, z3.IntVal(2), z3.IntVal(1)), lambda k, d: f(k), 1, 2, lambda k: f(k) != esc)


class Escape(Contract):
    """escape: unchanged unless it holds the separator or a line end; else in quotes, quotes doubled"""
    qname = 'scribbu::csv_pprinter::escape'
    mode = 'int'

    def pick(self, f):
        return len(TUnit.params(f)) == 3

    def call(self, eng, st, lv, sep, esc):
        return None, [lv, sep, esc]

    def quote(self):
        return z3.BitVec('esc', 8)

    def pre(self, eng, st):
        n, q = z3.Int('n'), z3.Int('q')
        st.assume(z3.And(n >= 0, n < (1 << 50)))
        f = z3.Function('text', I, z3.BitVecSort(8))
        lv = st.alloc(Seq(lambda j: f(j), n, 8, 'string', None, True), 'text')
        sep, esc = z3.BitVec('sep', 8), self.quote()
        st.assume(sep != 0)
        st.assume(sep != esc)
        special = lambda c: z3.Or(c == sep, c == B('\n'), c == B('\r'))
        # q: the first special character, or n
        st.assume(z3.And(q >= 0, q <= n, z3.Implies(q < n, special(f(q)))))
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j < q), z3.Not(special(f(j)))), 'no special character before q'))
        for t in (n, q):
            st.add_T(t)
        self.tr = doubled(n, f, esc)
        eng.axioms += self.tr.axioms()
        eng.term_gens.append(self.tr.terms)
        self.n, self.f, self.esc = n, f, esc
        this, args = self.call(eng, st, lv, sep, esc)
        return this, args, (n, f, lv, sep, esc, q)

    def loops(self, eng, nd, st, fn):
        f, esc = self.f, self.esc
        return TransLoop([self.tr], n=self.n, preds=[('not a quote', lambda j: f(j) != esc)])

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        n, f, lv, sep, esc, q = ctx
        A, t = eng.A, self.tr
        r = eng.rv(st, out[1])
        plain, quoted = q == n, q < n
        return [('length, plain', z3.Implies(plain, r.len == n)), ('length, quoted', z3.Implies(quoted, r.len == t.L(n) + 2)),
                ('plain text unchanged', FA(lambda k: z3.Implies(z3.And(plain, k >= 0, k < n), r.get(A, k) == f(k)))),
                ('begins with the quote', z3.Implies(quoted, r.get(A, z3.IntVal(0)) == esc)),
                ('ends with the quote', z3.Implies(quoted, r.get(A, t.L(n) + 1) == esc)),
                ('each character in order, quotes doubled', FA(lambda k: z3.Implies(z3.And(quoted, k >= 0, k < n), z3.And(
                    r.get(A, 1 + t.L(k)) == f(k), z3.Implies(f(k) == esc, r.get(A, 2 + t.L(k)) == esc)))))]

    def small(self, ctx):
        return [ctx[0] <= 2, ctx[0] <= 6, ctx[0] <= 64]

    def witness(self, ev, ctx):
        n, f, lv, sep, esc, q = ctx
        n = ev(n)
        if n is None or n > 4096:
            return None
        return '%02x%02x' % (ev(sep), ev(esc)) + ''.join('%02x' % ev(f(z3.IntVal(i))) for i in range(n))


class Member(Escape):
    """escape with the printer's own separator and the double quote"""
    label = Escape.qname + ' (printer\'s separator)'

    def pick(self, f):
        return len(TUnit.params(f)) == 1

    def quote(self):
        return B('"')

    def call(self, eng, st, lv, sep, esc):
        o = eng.any_struct(st, eng.tu.records['scribbu::csv_pprinter'], 'printer')
        return st.alloc(o.set('sep_', sep), 'printer'), [lv]


class Ctor(Contract):
    """only a separator that is not NUL is accepted, and it is the one kept"""
    qname = 'scribbu::csv_pprinter::csv_pprinter'
    mode = 'int'

    def pick(self, f):
        return len(TUnit.params(f)) == 4

    def pre(self, eng, st):
        sep = z3.BitVec('sep', 8)
        o = eng.default_struct(st, eng.tu.records['scribbu::csv_pprinter'], 'printer')
        none = st.alloc(Opt('boost::optional', {'has': z3.BoolVal(False), 'val': z3.BitVecVal(0, 32)}), 'enc')
        lv = st.alloc(o, 'printer')
        return lv, [z3.Int('ncomm'), none, none, sep], (lv, sep)

    def post(self, eng, st, out, ctx):
        lv, sep = ctx
        if out[0] == 'throw':
            return []
        return [('accepts no NUL', sep != 0), ('separator kept', eng.load(st, lv).f['sep_'] == sep)]


def lemmas():
    """a reader that is inside the quotes at the start of group k reads the character k and is inside at group k+1"""
    out = Transducer.lemmas()
    # reader inside quotes: a character other than the quote stands for itself; two quotes stand for one; a quote and then
    # something else (the separator, a line end or the end) ends the field
    y = z3.Function('y', I, z3.BitVecSort(8))
    p, c, esc, end = z3.Int('p'), z3.BitVec('c', 8), z3.BitVec('esc', 8), z3.Int('end')
    read = z3.If(y(p) != esc, y(p), esc)
    used = z3.If(y(p) != esc, z3.IntVal(1), z3.If(z3.And(p + 1 < end, y(p + 1) == esc), z3.IntVal(2), z3.IntVal(0)))
    for ln in (1, 2):
        hyp = [p + ln <= end, y(p) == c, (c != esc) if ln == 1 else z3.And(c == esc, y(p + 1) == esc)]
        out.append(prove('reader: group of %d' % ln, hyp, z3.And(read == c, used == ln)))
    out.append(prove('reader: the last quote ends the field', [p + 1 == end, y(p) == esc], used == 0))
    return out


CONTRACTS = [(TU, Escape()), (TU, Member()), (TU, Ctor())]
SEARCH_S = 4
ASSUMPTIONS = ['the separator differs from the quote character',
               'texts are shorter than 2^50 bytes']
