"""P21: a tag cloud is stored as it is, and a damaged one is refused."""
import os
import z3
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.engine import Unsupported
from cxxvc import models as M
from cxxvc.spec import prove

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P21.cc')
S = 'scribbu::'
C = S + 'tag_cloud'
I, B8 = z3.IntSort(), z3.BitVecSort(8)
CAP = 1 << 40
c64 = z3.IntVal
LE, LT = (lambda a, b: a <= b), (lambda a, b: a < b)


class Inv:
    """invariants: the candidates of the contract, for every pointer and counter the loop changes"""

    def __init__(self, c):
        self.c = c

    def setup(self, eng, inst, entry, head, modified):
        inst.phases = [[]]
        inst.extra_T = []

        def add(name, f, ar=0):
            x = (name, f, ar)
            inst.cands.append(x)
            inst.phases[0].append(x)
        self.c.candidates(eng, head, modified, add, inst.extra_T, entry)
        inst.measures += self.c.measures()


class Read(Contract):
    """Layout: a version, the owner up to a null; then tags: the name up to a null, the length of the values in four bytes, the values,
    each up to a null.  Ghost state: where the tag being read begins, how many values of it have been taken and where the next is."""
    qname = C + '::tag_cloud'
    label = C + '::tag_cloud (bytes)'
    mode = 'int'
    expect_return = True

    def pick(self, f):
        ts = [(c['type'].get('desugaredQualType') or c['type']['qualType']) for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        return len(ts) == 2 and all('const unsigned char *' in x for x in ts)

    def pre(self, eng, st):
        self.eng = eng
        eng.A.lazy_value = eng.A.lazy_word = True
        n = self.n = z3.Int('n')
        f = self.f = z3.Function('payload', I, B8)
        st.assume(z3.And(n >= 0, n < CAP))
        self.buf = st.alloc(Seq(lambda j: f(j), n, 8, 'array'), 'payload')
        Z = self.Z = z3.Function('first_null', I, I)
        st.add_T(n)
        self.touch(st, c64(1))
        self.this = st.alloc(eng.default_struct(st, eng.record(C), 'cloud'), 'cloud')
        self.ghost = st.alloc(Struct('ghost', self.begin(Z(c64(1)) + 1)), 'ghost')
        mo = eng.model_overrides
        mo['construct:other'] = self.make
        mo['insert'] = self.insert
        mo['operator[]'] = self.entry
        mo['operator='] = self.store
        return self.this, [Ptr(self.buf, c64(0)), Ptr(self.buf, n)], None

    # the format
    def meaning(self, x):
        """Z(x) is the first null from x on, or the end"""
        n, f, Z = self.n, self.f, self.Z
        return [z3.Implies(z3.And(x >= 0, LE(x, n)), z3.And(LE(x, Z(x)), LE(Z(x), n), z3.Or(Z(x) == n, f(Z(x)) == 0))),
                FA(lambda k: z3.Implies(z3.And(x >= 0, LE(x, n), LE(x, k), LT(k, Z(x))), f(k) != 0), 'no null before the first')]

    def touch(self, st, *xs):
        """what Z means, at the places a text begins"""
        for x in xs:
            for fact in self.meaning(x):
                st.assume(fact)
            st.add_T(self.Z(x))

    def declared(self, e):
        """the length declared for the values after a name ending at e"""
        return VALUE32(z3.Concat(*[self.f(e + i) for i in range(1, 5)]))

    def at(self, g):
        return g['next']

    def end(self, g):
        return g['end']

    def begin(self, p):
        """a tag at p"""
        e = self.Z(p) + 5
        return {k: z3.simplify(x) for k, x in dict(pos=p, count=c64(0), next=e, end=e + self.declared(self.Z(p))).items()}

    def is_text(self, x, a):
        """x is the text from a to the first null"""
        A = self.eng.A
        return [('size', x.len == self.Z(a) - a), ('characters', FA(lambda j: z3.Implies(z3.And(j >= 0, LT(j, x.len)), x.get(A, j) == self.f(a + j))))]

    def same(self, v, g):
        return z3.And(v.f['count'] == g['count'], z3.Or(g['count'] == 0, v.f['next'] == g['next']))

    def g(self, st):
        return self.eng.load(st, self.ghost).f

    def gset(self, st, **kw):
        o = self.eng.load(st, self.ghost)
        for k, v in kw.items():
            o = o.set(k, v)
        self.eng.storev(st, self.ghost, o)

    # what happens to the tags
    def make(self, eng, n, t, st, args):
        if not t.startswith(('std::set<', 'set<')) or args:
            return None
        return [(st, Struct('values', {'count': c64(0), 'next': c64(0)}))]

    def insert(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if not (isinstance(v, Struct) and v.cls == 'values') or len(vs) != 1:
            return None
        g = self.g(st)
        x = eng.rv(st, vs[0])
        a = self.at(g)
        self.touch(st, g['pos'], a)
        eng.oblige(st, 'the values of this tag only', self.same(v, g), n, 'postcondition')
        eng.oblige(st, 'the value ends within the length declared', z3.And(LT(self.Z(a), self.n), LT(self.Z(a), self.end(g))), n, 'postcondition')
        for k, goal in self.is_text(x, a):
            eng.oblige(st, 'the value is the next one: ' + k, goal, n, 'postcondition')
        kw = {'count': z3.simplify(g['count'] + 1), 'next': z3.simplify(self.Z(a) + 1)}
        self.gset(st, **kw)
        eng.storev(st, lv, Struct('values', kw))
        return [(st, Opaque('inserted'))]

    def entry(self, eng, st, lv, name, vs, n, args):
        v = eng.rv(st, lv) if isinstance(lv, LV) else None
        if not (isinstance(v, Opaque) and v.args and 'map<' in str(v.args[0])):
            return None
        return [(st, Opaque('entry', eng.rv(st, vs[-1])))]

    def store(self, eng, st, a, name, vs, n, args):
        if not (isinstance(a, Opaque) and a.name == 'entry'):
            return None
        v = eng.rv(st, vs[1])
        if not (isinstance(v, Struct) and v.cls == 'values'):
            raise Unsupported('values of a tag')
        g = self.g(st)
        p = g['pos']
        self.touch(st, p, self.at(g))
        eng.oblige(st, 'a whole tag', z3.And(LE(self.Z(p) + 5, self.n), LE(self.end(g), self.n)), n, 'postcondition')
        for k, goal in self.is_text(a.args[0], p):
            eng.oblige(st, 'the name is the next one: ' + k, goal, n, 'postcondition')
        eng.oblige(st, 'the values of this tag only', self.same(v, g), n, 'postcondition')
        eng.oblige(st, 'all its values', self.at(g) == self.end(g), n, 'postcondition')
        self.gset(st, **self.begin(self.at(g)))
        return [(st, a)]

    def loops(self, eng, nd, st, fn):
        return Inv(self)

    def measures(self):
        return [('bytes left', lambda st: self.n - self.at(self.g(st))), ('bytes after the tag begins', lambda st: self.n - self.g(st)['pos'])]

    def candidates(self, eng, head, modified, add, T, entry):
        g = lambda st: self.g(st)
        P = lambda st: g(st)['pos']
        add('the tag begins within', lambda st: z3.And(P(st) >= 0, LE(P(st), self.n)))
        add('no value yet', lambda st: z3.And(*[g(st)[k] == x for k, x in self.begin(P(st)).items()]))
        add('name and length there', lambda st: LE(self.Z(P(st)) + 5, self.n))
        add('the next value within', lambda st: z3.And(LE(self.at(g(st)), self.n), LE(self.Z(P(st)) + 5, self.at(g(st)))))
        add('not past the length', lambda st: LE(self.at(g(st)), self.end(g(st))))
        add('values taken', lambda st: g(st)['count'] >= 0)
        for cell, v in head.store.items():
            if isinstance(v, Ptr) and v.lv is not None and v.lv.same(self.buf):
                add('%s within' % cell, lambda st, c=cell: z3.And(st.store[c].off >= 0, LE(st.store[c].off, self.n)))
                add('%s at the tag' % cell, lambda st, c=cell: st.store[c].off == P(st))
                add('%s at the value' % cell, lambda st, c=cell: st.store[c].off == self.at(g(st)))
            elif isinstance(v, Struct) and v.cls == 'values':
                add('%s so far' % cell, lambda st, c=cell: self.same(st.store[c], g(st)))
            elif z3.is_bv(v) and v.size() == 32 and cell in modified:
                add('%s left' % cell, lambda st, c=cell: VALUE32(st.store[c]) == self.end(g(st)) - self.at(g(st)))
        for x in (P(head), self.at(g(head))):
            self.eng.axioms += self.meaning(x)
            T.append(self.Z(x))

    def post(self, eng, st, out, ctx):
        n, g = self.n, self.g(st)
        p, a, Z = g['pos'], self.at(g), self.Z
        self.touch(st, p, a)
        if out[0] == 'throw':
            for v in st.store.values():
                if z3.is_bv(v) and v.size() == 32:
                    st.assume((VALUE32(v) == 0) == (v == 0))
            return [('refused only if incomplete or a length is wrong',
                     z3.Or(n == 0, Z(c64(1)) == n, z3.And(p != n, z3.Or(LT(n, Z(p) + 5), z3.And(a != self.end(g), z3.Or(Z(a) == n, LE(self.end(g), Z(a))))))))]
        o = eng.load(st, self.this)
        return [('the owner: ' + k, x) for k, x in self.is_text(o.f['own_'], c64(1))] + [('read to the end', z3.And(n != 0, LT(Z(c64(1)), n), p == n)), ('no values left over', g['count'] == 0)]

    def small(self, ctx):
        return [LE(self.n, 8), LE(self.n, 14), LE(self.n, 40)]

    def witness(self, ev, ctx):
        n = ev(self.n)
        if n > 300:
            return None
        return '01' + ''.join('%02x' % ev(self.f(c64(i))) for i in range(n))


class Cloud(Contract):
    """A cloud of K tags: the name of tag i, KL(i) characters KC(i, j); its VN(i) values, value m VL(i, m) characters VC(i, m, j).
    VS(i, m): bytes of the first m values of tag i with their nulls; KO(i): where tag i begins in the layout LAY."""
    mode = 'int'
    expect_return = True

    def cloud(self, eng, st):
        self.eng = eng
        eng.A.lazy_value = eng.A.lazy_word = True
        F = z3.Function
        K = self.K = z3.Int('tags')
        OL = self.OL = z3.Int('owner_length')
        OC, KL, KC, VN = F('owner', I, B8), F('name_length', I, I), F('name', I, I, B8), F('values', I, I)
        VL, VC, VS, KO = F('value_length', I, I, I), F('value', I, I, I, B8), F('values_size', I, I, I), F('tag_at', I, I)
        self.OC, self.KL, self.KC, self.VN, self.VL, self.VC, self.VS, self.KO = OC, KL, KC, VN, VL, VC, VS, KO
        L = self.LAY = F('layout', I, B8)
        st.assume(z3.And(K >= 0, OL >= 0, KO(c64(0)) == OL + 2, KO(c64(0)) <= KO(K), KO(K) < 1 << 32, L(c64(0)) == 1))
        st.assume(FA(lambda j: z3.Implies(z3.And(j >= 0, j <= OL), L(1 + j) == z3.If(j < OL, OC(j), 0)), 'the owner'))
        st.add_T(K)
        # a null follows the characters
        text = lambda f, n: Seq(lambda j: z3.If(j < n, f(j), z3.BitVecVal(0, 8)), n, 8, 'string', signed=True)
        o = eng.any_struct(st, eng.record(C), 'cloud')
        o = o.set('own_', text(lambda j: OC(j), OL))
        vals = lambda i: Seq(lambda m: text(lambda j: VC(i, m, j), VL(i, m)), VN(i), None, 'vector')
        o = o.set('tags_', Seq(lambda i: Tup('pair', {'first': text(lambda j: KC(i, j), KL(i)), 'second': vals(i)}), K, None, 'vector'))
        self.this = st.alloc(o, 'cloud')
        return self.this

    def base(self, i):
        """where the values of tag i begin"""
        return self.KO(i) + self.KL(i) + 5

    def about_tag(self, i):
        KL, KO, VS, VN, L = self.KL, self.KO, self.VS, self.VN, self.LAY
        here = z3.And(i >= 0, i < self.K)
        size = WORD32(VS(i, VN(i)))
        return [z3.Implies(here, z3.And(KL(i) >= 0, VN(i) >= 0, VS(i, VN(i)) >= 0, VS(i, c64(0)) == 0, KO(i) >= 2, KO(i + 1) == self.base(i) + VS(i, VN(i)), KO(i + 1) <= KO(self.K))),
                FA(lambda j: z3.Implies(z3.And(here, j >= 0, j <= KL(i)), L(KO(i) + j) == z3.If(j < KL(i), self.KC(i, j), 0)), 'name')] + \
               [z3.Implies(here, L(KO(i) + KL(i) + 1 + b) == z3.Extract(31 - 8 * b, 24 - 8 * b, size)) for b in range(4)]

    def about_value(self, i, m):
        VL, VS, VN, L = self.VL, self.VS, self.VN, self.LAY
        here = z3.And(i >= 0, i < self.K, m >= 0, m < VN(i))
        return [z3.Implies(here, z3.And(VL(i, m) >= 0, VS(i, m) >= 0, VS(i, m + 1) == VS(i, m) + VL(i, m) + 1, VS(i, m + 1) <= VS(i, VN(i)))),
                FA(lambda j: z3.Implies(z3.And(here, j >= 0, j <= VL(i, m)), L(self.base(i) + VS(i, m) + j) == z3.If(j < VL(i, m), self.VC(i, m, j), 0)), 'value')]

    def loops(self, eng, nd, st, fn):
        return Inv(self)

    def measures(self):
        return self.ms

    def is_end(self, x):
        return x.eq(self.K) or z3.is_app(x) and x.decl().eq(self.VN)

    def its(self, st):
        """iterators over the tags and over the values of a tag"""
        its = [(c, v) for c, v in st.store.items() if isinstance(v, Ptr) and v.lv is not None and v.lv.path and not self.is_end(v.off)]
        a = [c for c, v in its if v.lv.path == ('tags_',)]
        b = [c for c, v in its if v.lv.path[-1] == 'second']
        return a, b

    def candidates(self, eng, head, modified, add, T, entry):
        self.ms = []
        tags, vals = self.its(head)
        off = lambda st, c: st.store[c].off
        qs = [(c, lambda st, c=c: st.store[c]) for c, v in head.store.items() if c in modified and z3.is_expr(v) and v.sort() == I]
        qs += [(c, lambda st, c=c: VALUE32(st.store[c])) for c, v in head.store.items() if c in modified and z3.is_bv(v) and v.size() == 32]
        for c, v in head.store.items():
            if isinstance(v, Struct) and v.cls == 'ghost' and c in modified:
                qs.append((c, lambda st, c=c: st.store[c].f['pos']))
        for a in tags:
            T.append(off(head, a))
            eng.axioms += self.about_tag(off(head, a))
            if a in modified:
                add('%s within' % a, lambda st, a=a: z3.And(off(st, a) >= 0, off(st, a) <= self.K))
                self.ms.append(('tags left', lambda st, a=a: self.K - off(st, a) + 0))
            for x, q in qs:
                add('%s at tag %s' % (x, a), lambda st, a=a, q=q: q(st) == self.KO(off(st, a)))
            for b in vals:
                T.append(off(head, b))
                eng.axioms += self.about_value(off(head, a), off(head, b))
                if b in modified:
                    add('%s within' % b, lambda st, a=a, b=b: z3.And(off(st, b) >= 0, off(st, b) <= self.VN(off(st, a))))
                    add('%s sums' % b, lambda st, a=a, b=b: z3.And(self.VS(off(st, a), off(st, b)) >= 0, self.VS(off(st, a), off(st, b)) <= self.VS(off(st, a), self.VN(off(st, a)))))
                    self.ms.append(('values left', lambda st, a=a, b=b: self.VN(off(st, a)) - off(st, b)))
                for x, q in qs:
                    add('%s at value %s' % (x, b), lambda st, a=a, b=b, q=q: q(st) == self.base(off(st, a)) + self.VS(off(st, a), off(st, b)))
                    add('%s sum of %s' % (x, b), lambda st, a=a, b=b, q=q: q(st) == self.VS(off(st, a), off(st, b)))


    def small(self, ctx):
        return [z3.And(self.K <= k, self.KO(self.K) <= n) for k, n in ((1, 20), (2, 60), (3, 400))]

    def witness(self, ev, ctx):
        text = lambda n, c: ('%02x' % c) * n + '00'
        K, OL = ev(self.K), ev(self.OL)
        if not (0 <= K <= 8 and 0 <= OL <= 1000):
            return None
        out = '0401' + text(OL, 0x6f)
        for i in range(K):
            i = c64(i)
            kl, vn = ev(self.KL(i)), ev(self.VN(i))
            vl = [ev(self.VL(i, c64(m))) for m in range(max(0, min(vn, 9)))]
            if vn > 8 or not all(0 <= x <= 5000 for x in [kl] + vl):
                return None
            vs = ''.join(text(x, 0x70 + m) for m, x in enumerate(vl))
            out += text(kl, 0x61 + i.as_long()) + '%08x' % (len(vs) // 2) + vs
        return out


class Size(Cloud):
    qname = C + '::size'

    def pre(self, eng, st):
        return self.cloud(eng, st), [], None

    def post(self, eng, st, out, ctx):
        return [('the size of the layout', eng.rv(st, out[1]) == self.KO(self.K))]


class Write(Cloud):
    qname = C + '::write'

    def pre(self, eng, st):
        this = self.cloud(eng, st)
        os = st.alloc(M.new_ostream(eng, st, 'os'), 'os')
        self.os = os
        self.ghost = st.alloc(Struct('ghost', {'pos': c64(0)}), 'ghost')
        eng.on_emit = self.wrote
        return this, [os], None

    def wrote(self, st, lv, d):
        eng = self.eng
        pos = eng.load(st, self.ghost).f['pos']
        eng.oblige(st, 'written as laid out', FA(lambda j: z3.Implies(z3.And(j >= 0, j < d.len), d.get(eng.A, j) == self.LAY(pos + j))), None, 'postcondition')
        eng.storev(st, self.ghost, Struct('ghost', {'pos': z3.simplify(pos + d.len)}))

    def post(self, eng, st, out, ctx):
        return [('the whole layout', eng.load(st, self.ghost).f['pos'] == self.KO(self.K)), ('the size returned', eng.rv(st, out[1]) == self.KO(self.K))]


class Sizes(Contract):
    """the two sizes from the contracts of size and count_syncs"""
    mode = 'int'

    def __init__(self, fn):
        self.fn = fn
        self.qname = C + '::' + fn

    def pre(self, eng, st):
        self.this = st.alloc(eng.any_struct(st, eng.record(C), 'cloud'), 'cloud')
        self.N, self.all, self.false, self.unsync = z3.Int('size'), z3.Int('pairs'), z3.Int('false_syncs'), z3.Bool('unsync')
        for x in (self.N, self.all, self.false):
            st.assume(z3.And(x >= 0, x < CAP))
        eng.abstract_methods[C + '::size'] = lambda eng, st, lv, vs, n: [(st, self.N)]
        eng.abstract_methods[C + '::count_syncs'] = lambda eng, st, lv, vs, n: [(st, z3.If(eng.to_bool(eng.rv(st, vs[0])), self.false, self.all))]
        return self.this, [self.unsync] if self.fn == 'serialized_size' else [], None

    def post(self, eng, st, out, ctx):
        r = eng.rv(st, out[1])
        if self.fn == 'serialized_size':
            return [('the size, with unsynchronisation one more for each pair', r == self.N + z3.If(self.unsync, self.all, 0))]
        return [('the number of false syncs', r == self.false)]


class Encoded(Cloud):
    """The text: the encoded names with & between them, each followed by its encoded values after = and commas.
    EK, EV: the encodings; ES(i, m): characters of the first m values of tag i with the mark before each; TO(i): where tag i, or the & before
    it, begins in the text TXT."""
    qname = C + '::urlencoded'

    def pre(self, eng, st):
        this = self.cloud(eng, st)
        F = z3.Function
        self.EL, self.EK, self.WL, self.EV = F('encoded_name_length', I, I), F('encoded_name', I, I, B8), F('encoded_value_length', I, I, I), F('encoded_value', I, I, I, B8)
        self.ES, self.TO, self.TXT = F('encoded_values_size', I, I, I), F('encoded_tag_at', I, I), F('text', I, B8)
        st.assume(z3.And(self.TO(c64(0)) == 0, self.TO(self.K) >= 0, self.TO(self.K) < CAP))
        eng.abstract_methods[S + 'urlencode'] = self.encode
        eng.abstract_methods['urlencode'] = self.encode
        return this, [], None

    def encode(self, eng, st, t, vs, n):
        x = eng.rv(st, vs[0])
        l = x.len
        if z3.is_app(l) and l.decl().eq(self.KL):
            i = l.arg(0)
            yield st, Seq(lambda j: self.EK(i, j), self.EL(i), 8, 'string', signed=True)
        elif z3.is_app(l) and l.decl().eq(self.VL):
            i, m = l.children()
            yield st, Seq(lambda j: self.EV(i, m, j), self.WL(i, m), 8, 'string', signed=True)
        else:
            raise Unsupported('encoding of something else')

    def first_value(self, i):
        return self.TO(i) + z3.If(i > 0, 1, 0) + self.EL(i)

    def about_tag(self, i):
        here = z3.And(i >= 0, i < self.K)
        T, TO, ES, VN = self.TXT, self.TO, self.ES, self.VN
        return [z3.Implies(here, z3.And(self.EL(i) >= 0, VN(i) >= 0, ES(i, c64(0)) == 0, ES(i, VN(i)) >= 0, TO(i) >= 0, TO(i + 1) == self.first_value(i) + ES(i, VN(i)), TO(i + 1) <= TO(self.K))),
                z3.Implies(z3.And(here, i > 0), T(TO(i)) == ord('&')),
                FA(lambda j: z3.Implies(z3.And(here, j >= TO(i) + z3.If(i > 0, 1, 0), j < self.first_value(i)), T(j) == self.EK(i, j - TO(i) - z3.If(i > 0, 1, 0))), 'name')]

    def about_value(self, i, m):
        here = z3.And(i >= 0, i < self.K, m >= 0, m < self.VN(i))
        T, ES = self.TXT, self.ES
        a = self.first_value(i) + ES(i, m)
        return [z3.Implies(here, z3.And(self.WL(i, m) >= 0, ES(i, m) >= 0, ES(i, m + 1) == ES(i, m) + 1 + self.WL(i, m), ES(i, m + 1) <= ES(i, self.VN(i)))),
                z3.Implies(here, T(a) == z3.If(m == 0, z3.BitVecVal(ord('='), 8), z3.BitVecVal(ord(','), 8))),
                FA(lambda j: z3.Implies(z3.And(here, j > a, j <= a + self.WL(i, m)), T(j) == self.EV(i, m, j - a - 1)), 'value')]

    def candidates(self, eng, head, modified, add, T, entry):
        self.ms = []
        tags, vals = self.its(head)
        off = lambda st, c: st.store[c].off
        texts = [c for c, v in head.store.items() if c in modified and isinstance(v, Seq) and v.ew == 8]
        flags = [c for c, v in head.store.items() if c in modified and z3.is_bool(v)]
        for x in texts:
            T.append(head.store[x].len)
            add('%s is the text so far' % x, lambda st, j, x=x: z3.Implies(z3.And(j >= 0, j < st.store[x].len), st.store[x].get(eng.A, j) == self.TXT(j)), 1)
        for a in tags:
            i = off(head, a)
            T += [i, self.TO(i), self.first_value(i)]
            eng.axioms += self.about_tag(i)
            # the first of several values, for the mark before it
            eng.axioms += self.about_value(i, c64(0))
            if a in modified:
                add('%s within' % a, lambda st, a=a: z3.And(off(st, a) >= 0, off(st, a) <= self.K))
                self.ms.append(('tags left', lambda st, a=a: self.K - off(st, a)))
            for x in flags:
                add('%s: first tag' % x, lambda st, a=a, x=x: st.store[x] == (off(st, a) == 0))
                add('%s: not the first tag' % x, lambda st, a=a, x=x: st.store[x] != (off(st, a) == 0))
            for x in texts:
                add('%s to tag %s' % (x, a), lambda st, a=a, x=x: st.store[x].len == self.TO(off(st, a)))
            for b in vals:
                m = off(head, b)
                T.append(m)
                eng.axioms += self.about_value(i, m)
                if b in modified:
                    add('%s within' % b, lambda st, a=a, b=b: z3.And(off(st, b) >= 0, off(st, b) <= self.VN(off(st, a))))
                    add('%s sums' % b, lambda st, a=a, b=b: z3.And(self.ES(off(st, a), off(st, b)) >= 0, self.ES(off(st, a), off(st, b)) <= self.ES(off(st, a), self.VN(off(st, a)))))
                    self.ms.append(('values left', lambda st, a=a, b=b: self.VN(off(st, a)) - off(st, b)))
                for x in flags:
                    add('%s: first value' % x, lambda st, b=b, x=x: st.store[x] == (off(st, b) == 0))
                    add('%s: not the first value' % x, lambda st, b=b, x=x: st.store[x] != (off(st, b) == 0))
                for x in texts:
                    add('%s to value %s' % (x, b), lambda st, a=a, b=b, x=x: st.store[x].len == self.first_value(off(st, a)) + z3.If(off(st, b) == 0, 1, self.ES(off(st, a), off(st, b))))
                    add('%s to mark %s' % (x, b), lambda st, a=a, b=b, x=x: st.store[x].len == self.first_value(off(st, a)) + self.ES(off(st, a), off(st, b)))

    def post(self, eng, st, out, ctx):
        r = eng.rv(st, out[1])
        return [('the size of the text', r.len == self.TO(self.K)), ('the text', FA(lambda j: z3.Implies(z3.And(j >= 0, j < r.len), r.get(eng.A, j) == self.TXT(j))))]

    def small(self, ctx):
        return [z3.And(self.K <= k, self.TO(self.K) <= n) for k, n in ((1, 20), (2, 60), (3, 400))]


class Decode(Contract):
    """Reading a text: the pieces between the marks, decoded in turn.  Ghost state: where the next piece begins; whether it is a name (then = or
    & ends it) or a value (then a comma or & does); where the name of the values is; what must become of the piece last decoded."""
    qname = C + '::parse_to_map'
    mode = 'int'
    expect_return = True

    def pre(self, eng, st):
        self.eng = eng
        F = z3.Function
        n, f = self.n, self.f = z3.Int('n'), F('text', I, B8)
        st.assume(z3.And(n >= 0, n < CAP))
        st.add_T(n)
        self.DL, self.DC, self.BAD = F('decoded_length', I, I, I), F('decoded', I, I, I, B8), F('cannot_be_decoded', I, I, z3.BoolSort())
        self.text = st.alloc(Seq(lambda j: f(j), n, 8, 'string', signed=True), 'text')
        self.map = st.alloc(Struct('tags', {}), 'M')
        Z = z3.BoolVal
        self.ghost = st.alloc(Struct('ghost', {'start': c64(0), 'name': Z(True), 'ks': c64(0), 'ke': c64(0), 'a': c64(0), 'b': c64(0), 'todo': c64(0), 'bad': Z(False), 'twice': Z(False)}), 'ghost')
        mo = eng.model_overrides
        mo['count'] = self.count
        mo['insert'] = self.insert
        mo['operator[]'] = self.entry
        mo['operator='] = self.store
        mo['construct:other'] = Read.make.__get__(self)
        for q in (S + 'urldecode', 'urldecode'):
            eng.abstract_methods[q] = self.decode
        return None, [self.text, self.map], None

    g, gset = Read.g, Read.gset

    def ends(self, g, c):
        """c ends a piece"""
        return z3.Or(c == ord('&'), z3.If(g['name'], c == ord('='), c == ord(',')))

    def decoded(self, x, a, b):
        return z3.And(x.len == self.DL(a, b)), FA(lambda j: z3.Implies(z3.And(j >= 0, j < x.len), x.get(self.eng.A, j) == self.DC(a, b, j)))

    def must_be(self, st, what, x, a, b, n):
        for k, goal in zip(('size', 'characters'), self.decoded(x, a, b)):
            self.eng.oblige(st, '%s: %s' % (what, k), goal, n, 'postcondition')

    def decode(self, eng, st, t, vs, n):
        x = eng.rv(st, vs[0])
        g = self.g(st)
        a = g['start']
        b = z3.simplify(a + x.len)
        f = self.f
        for t in (a, b):
            st.add_T(t)
        eng.oblige(st, 'the piece before was used', g['todo'] == 0, n, 'postcondition')
        eng.oblige(st, 'the next piece: size', z3.And(b <= self.n, z3.Or(b == self.n, self.ends(g, f(b)))), n, 'postcondition')
        eng.oblige(st, 'the next piece: no mark in it', FA(lambda j: z3.Implies(z3.And(j >= a, j < b), z3.Not(self.ends(g, f(j))))), n, 'postcondition')
        eng.oblige(st, 'the next piece: characters', FA(lambda j: z3.Implies(z3.And(j >= 0, j < x.len), x.get(eng.A, j) == f(a + j))), n, 'postcondition')
        new_name = z3.And(g['name'], b < self.n, f(b) == ord('='))
        last = z3.Or(b == self.n, f(b) == ord('&'))
        s2 = st.clone()
        s2.assume(self.BAD(a, b))
        self.gset(s2, bad=z3.BoolVal(True))
        st.assume(z3.Not(self.BAD(a, b)))
        st.assume(self.DL(a, b) >= 0)
        self.gset(st, start=z3.simplify(b + 1), name=z3.simplify(z3.If(new_name, False, z3.Or(g['name'], last))), ks=z3.If(new_name, a, g['ks']), ke=z3.If(new_name, b, g['ke']), a=a, b=b,
                  todo=z3.If(new_name, c64(0), z3.If(g['name'], c64(1), c64(2))))
        yield st, Seq(lambda j: self.DC(a, b, j), self.DL(a, b), 8, 'string', signed=True)
        yield s2, Throw('std::invalid_argument')

    def count(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        g = self.g(st)
        self.must_be(st, 'asked for the name decoded', eng.rv(st, vs[0]), g['a'], g['b'], n)
        c = eng.A.fresh('present')
        st.assume(z3.And(c >= 0, c <= 1))
        self.gset(st, twice=c == 1)
        return [(st, c)]

    def entry(self, eng, st, lv, name, vs, n, args):
        v = eng.rv(st, lv) if isinstance(lv, LV) else None
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        return [(st, st.alloc(Struct('entry', {'key': eng.rv(st, vs[-1])}), 'entry'))]

    def store(self, eng, st, a, name, vs, n, args):
        e = eng.rv(st, a) if isinstance(a, LV) else None
        if not (isinstance(e, Struct) and e.cls == 'entry'):
            return None
        v = eng.rv(st, vs[1])
        if not (isinstance(v, Struct) and v.cls == 'values'):
            raise Unsupported('values of a tag')
        g = self.g(st)
        eng.oblige(st, 'a new tag for a name without values', z3.And(g['todo'] == 1, z3.Not(g['twice']), v.f['count'] == 0), n, 'postcondition')
        self.must_be(st, 'the name', e.f['key'], g['a'], g['b'], n)
        self.gset(st, todo=c64(0))
        return [(st, a)]

    def insert(self, eng, st, lv, name, vs, n, args):
        e = eng.load(st, lv)
        if not (isinstance(e, Struct) and e.cls == 'entry') or len(vs) != 1:
            return None
        g = self.g(st)
        eng.oblige(st, 'a value for a name with values', g['todo'] == 2, n, 'postcondition')
        self.must_be(st, 'the name of the value', e.f['key'], g['ks'], g['ke'], n)
        self.must_be(st, 'the value', eng.rv(st, vs[0]), g['a'], g['b'], n)
        self.gset(st, todo=c64(0))
        return [(st, Opaque('inserted'))]

    def loops(self, eng, nd, st, fn):
        return Inv(self)

    def measures(self):
        return self.ms

    def candidates(self, eng, head, modified, add, T, entry):
        A, f, g = eng.A, self.f, self.g
        self.ms = []
        # indices into the text and positions in it
        at = lambda st, c: st.store[c].off if isinstance(st.store[c], Ptr) else st.store[c]
        ints = [c for c, v in head.store.items() if c in modified and (z3.is_expr(v) and v.sort() == I or isinstance(v, Ptr) and v.lv is not None and v.lv.same(self.text))]
        flags = [c for c, v in head.store.items() if c in modified and z3.is_bool(v)]
        texts = [c for c, v in head.store.items() if c in modified and isinstance(v, Seq) and v.ew == 8]
        T += [g(head)['start']] + [at(head, c) for c in ints]
        add('nothing left to do', lambda st: z3.And(g(st)['todo'] == 0, z3.Not(g(st)['bad'])))
        add('the piece begins within', lambda st: g(st)['start'] >= 0)
        for c in ints:
            add('%s within' % c, lambda st, c=c: z3.And(at(st, c) >= 0, at(st, c) <= self.n))
            add('%s in the piece' % c, lambda st, c=c: g(st)['start'] <= at(st, c))
            add('no mark before %s' % c, lambda st, j, c=c: z3.Implies(z3.And(j >= g(st)['start'], j < at(st, c)), z3.Not(self.ends(g(st), f(j)))), 1)
            self.ms.append(('n - %s' % c, lambda st, c=c: self.n - at(st, c)))
            for x in texts:
                add('%s up to %s' % (x, c), lambda st, c=c, x=x: st.store[x].len == at(st, c) - g(st)['start'])
        for c in flags:
            add('%s: a name' % c, lambda st, c=c: st.store[c] == g(st)['name'])
            add('%s: a value' % c, lambda st, c=c: st.store[c] != g(st)['name'])
        for x in texts:
            add('%s is the piece so far' % x, lambda st, j, x=x: z3.Implies(z3.And(j >= 0, j < st.store[x].len), st.store[x].get(A, j) == f(g(st)['start'] + j)), 1)
            add('%s is the name: size' % x, lambda st, x=x: z3.Implies(z3.Not(g(st)['name']), st.store[x].len == self.DL(g(st)['ks'], g(st)['ke'])))
            add('%s is the name: characters' % x, lambda st, j, x=x: z3.Implies(z3.And(z3.Not(g(st)['name']), j >= 0, j < st.store[x].len), st.store[x].get(A, j) == self.DC(g(st)['ks'], g(st)['ke'], j)), 1)

    def post(self, eng, st, out, ctx):
        g = self.g(st)
        if out[0] == 'throw':
            return [('refused only if a piece cannot be decoded or a name is there twice', z3.Or(g['bad'], z3.And(g['todo'] == 1, g['twice'])))]
        return [('every piece used', z3.And(g['todo'] == 0, g['start'] == self.n + 1))]


def same_text(eng, st, what, x, y, n):
    eng.oblige(st, what + ': size', x.len == y.len, n, 'postcondition')
    eng.oblige(st, what + ': characters', FA(lambda j: z3.Implies(z3.And(j >= 0, j < x.len), x.get(eng.A, j) == y.get(eng.A, j))), n, 'postcondition')


def params(f):
    return [(c['type'].get('desugaredQualType') or c['type']['qualType']) for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']


class Edit(Contract):
    """add_key, add_value, has_value.  Of the tags only the one named matters: whether it is there, and whether it has the value."""
    mode = 'int'
    expect_return = True

    def __init__(self, fn):
        self.fn = fn
        self.qname = C + '::' + fn

    def pre(self, eng, st):
        self.eng = eng
        text = lambda nm: seq_sym(eng.A, nm, z3.Int(nm + '_size'), 8, 'string')
        self.key, self.val = text('key'), text('val')
        st.assume(z3.And(self.key.len >= 0, self.val.len >= 0, self.key.len < CAP, self.val.len < CAP))
        self.c0, self.d0 = z3.Bool('tag_there'), z3.Bool('value_there')
        self.this = st.alloc(eng.any_struct(st, eng.record(C), 'cloud').set('tags_', Struct('tags', {})), 'cloud')
        self.ghost = st.alloc(Struct('ghost', {'c': self.c0, 'd': z3.And(self.c0, self.d0), 'lost': z3.BoolVal(False)}), 'ghost')
        mo = eng.model_overrides
        for k in ('count', 'at', 'insert'):
            mo[k] = self.ask
        mo['operator[]'] = self.entry
        mo['operator='] = self.store
        mo['construct:other'] = Read.make.__get__(self)
        return self.this, [st.alloc(self.key, 'key')] + [st.alloc(self.val, 'val')] * (self.fn != 'add_key'), None

    g, gset = Read.g, Read.gset

    def there(self, eng, st, x):
        c = eng.A.fresh('there')
        st.assume(c == z3.If(x, 1, 0))
        return c

    def ask(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        g = self.g(st)
        if len(vs) != 1 or not isinstance(v, Struct):
            return None
        if v.cls == 'tags' and name in ('count', 'at'):
            same_text(eng, st, 'the name', eng.rv(st, vs[0]), self.key, n)
            if name == 'count':
                return [(st, self.there(eng, st, g['c']))]
            eng.oblige(st, 'the tag is there', g['c'], n, 'postcondition')
            return [(st, st.alloc(Struct('entry', {'new': z3.BoolVal(False)}), 'entry'))]
        if v.cls == 'entry' and name in ('count', 'insert'):
            same_text(eng, st, 'the value', eng.rv(st, vs[0]), self.val, n)
            if name == 'count':
                return [(st, self.there(eng, st, g['d']))]
            self.gset(st, d=z3.BoolVal(True))
            return [(st, Opaque('inserted'))]
        return None

    def entry(self, eng, st, lv, name, vs, n, args):
        v = eng.rv(st, lv) if isinstance(lv, LV) else None
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        same_text(eng, st, 'the name', eng.rv(st, vs[-1]), self.key, n)
        c = self.g(st)['c']
        self.gset(st, c=z3.BoolVal(True))
        return [(st, st.alloc(Struct('entry', {'new': z3.Not(c)}), 'entry'))]

    def store(self, eng, st, a, name, vs, n, args):
        e = eng.rv(st, a) if isinstance(a, LV) else None
        if not (isinstance(e, Struct) and e.cls == 'entry'):
            return None
        v = eng.rv(st, vs[1])
        if not (isinstance(v, Struct) and v.cls == 'values'):
            raise Unsupported('values of a tag')
        self.gset(st, d=z3.BoolVal(False), lost=z3.simplify(z3.Or(self.g(st)['lost'], z3.Not(e.f['new']))))
        return [(st, a)]

    def post(self, eng, st, out, ctx):
        g, r = self.g(st), eng.to_bool(eng.rv(st, out[1]))
        had = z3.And(self.c0, self.d0)
        if self.fn == 'has_value':
            return [('the answer', r == had), ('nothing changed', z3.And(g['c'] == self.c0, g['d'] == had, z3.Not(g['lost'])))]
        if self.fn == 'add_key':
            return [('the answer', r == z3.Not(self.c0)), ('the tag is there with the values it had', z3.And(g['c'], g['d'] == had, z3.Not(g['lost'])))]
        return [('the answer', r == z3.Not(had)), ('the value is there with those it had', z3.And(g['c'], g['d'], z3.Not(g['lost'])))]


class FromText(Contract):
    """update, and a cloud made of a text: the tags are those parse_to_map (under contract) makes of the text"""
    mode = 'int'
    expect_return = True

    def __init__(self, new):
        self.new = new
        self.qname = C + ('::tag_cloud' if new else '::update')
        self.label = C + '::tag_cloud (text)' if new else self.qname

    def pick(self, f):
        return len(params(f)) == (2 if self.new else 1) and all('string' in t and 'initializer_list' not in t for t in params(f))

    def pre(self, eng, st):
        self.eng = eng
        text = lambda nm: seq_sym(eng.A, nm, z3.Int(nm + '_size'), 8, 'string')
        self.own, self.text = text('owner'), text('text')
        st.assume(z3.And(self.own.len >= 0, self.text.len >= 0, self.own.len < CAP, self.text.len < CAP))
        o = (eng.default_struct if self.new else eng.any_struct)(st, eng.record(C), 'cloud')
        self.this = st.alloc(o if self.new else o.set('tags_', Struct('tags', {'empty': z3.BoolVal(False)})), 'cloud')
        self.ghost = st.alloc(Struct('ghost', {'parsed': c64(0)}), 'ghost')
        eng.model_overrides['clear'] = self.clear
        for q in (C + '::parse_to_map', 'parse_to_map'):
            eng.abstract_methods[q] = self.parse
        ps = [st.alloc(self.text, 'text')]
        return self.this, [st.alloc(self.own, 'owner')] * self.new + ps, None

    g, gset = Read.g, Read.gset

    def clear(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        eng.storev(st, lv, v.set('empty', z3.BoolVal(True)))
        return [(st, Opaque('void'))]

    def parse(self, eng, st, t, vs, n):
        same_text(eng, st, 'the text', eng.rv(st, vs[0]), self.text, n)
        lv = vs[1]
        if not (isinstance(lv, LV) and lv.cell == self.this.cell and lv.path == ('tags_',)):
            raise Unsupported('text read into something else')
        v = eng.load(st, lv)
        empty = v.f['empty'] if isinstance(v, Struct) else z3.BoolVal(self.new)
        eng.oblige(st, 'nothing else in the cloud', empty, n, 'postcondition')
        self.gset(st, parsed=z3.simplify(self.g(st)['parsed'] + 1))
        s2 = st.clone()
        yield st, Opaque('void')
        yield s2, Throw('std::invalid_argument')

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('refused only with the text', self.g(st)['parsed'] == 1)]
        o = eng.load(st, self.this).f['own_']
        return [('the text is read', self.g(st)['parsed'] == 1)] + ([('the owner: size', o.len == self.own.len), ('the owner: characters', FA(lambda j: z3.Implies(z3.And(j >= 0, j < o.len), o.get(eng.A, j) == self.own.get(eng.A, j))))] if self.new else [])


class Merge(Cloud):
    """every tag of the text is looked up in turn; its values are added to those there, or it becomes a new tag"""
    qname = C + '::merge'

    def pre(self, eng, st):
        self.text = seq_sym(eng.A, 'text', z3.Int('text_size'), 8, 'string')
        st.assume(z3.And(self.text.len >= 0, self.text.len < CAP))
        lv = self.cloud(eng, st)
        o = eng.load(st, lv)
        self.tags = o.f['tags_']
        self.P = z3.Function('tag_there', I, z3.BoolSort())
        eng.storev(st, lv, o.set('tags_', Struct('tags', {})))
        self.ghost = st.alloc(Struct('ghost', {'pos': c64(0), 'parsed': z3.BoolVal(False)}), 'ghost')
        mo = eng.model_overrides
        mo['count'] = self.count
        mo['empty'] = self.empty
        mo['insert'] = self.insert
        mo['operator[]'] = self.entry
        mo['operator='] = self.store
        mo['construct:other'] = self.make
        for q in (C + '::parse_to_map', 'parse_to_map'):
            eng.abstract_methods[q] = self.parse
        return lv, [st.alloc(self.text, 'text')], None

    g, gset = Read.g, Read.gset

    def make(self, eng, n, t, st, args):
        if t.startswith(('std::map<', 'map<')) and not args:
            return [(st, Struct('fresh', {}))]
        if t.startswith(('std::set<', 'set<')) and len(args) == 1:
            return [(s1, vs if isinstance(vs, Throw) else eng.rv(s1, vs[0])) for s1, vs in eng.evs(args, st)]
        return None

    def parse(self, eng, st, t, vs, n):
        same_text(eng, st, 'the text', eng.rv(st, vs[0]), self.text, n)
        v = eng.load(st, vs[1])
        if not (isinstance(v, Opaque) or isinstance(v, Struct) and v.cls == 'fresh') or vs[1].cell == self.this.cell:
            raise Unsupported('text read into something else')
        s2 = st.clone()
        eng.storev(st, vs[1], self.tags)
        self.gset(st, parsed=z3.BoolVal(True))
        yield st, Opaque('void')
        yield s2, Throw('std::invalid_argument')

    def about_tag(self, i):
        return [z3.Implies(z3.And(i >= 0, i < self.K), z3.And(self.KL(i) >= 0, self.VN(i) >= 0))]

    def tag(self, x):
        """which tag's name or values"""
        if isinstance(x, Seq) and z3.is_app(x.len) and (x.len.decl().eq(self.KL) or x.len.decl().eq(self.VN)):
            return x.len.arg(0)
        raise Unsupported('not a tag of the text')

    def count(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        c = eng.A.fresh('present')
        st.assume(c == z3.If(self.P(self.tag(eng.rv(st, vs[0]))), 1, 0))
        return [(st, c)]

    def entry(self, eng, st, lv, name, vs, n, args):
        v = eng.rv(st, lv) if isinstance(lv, LV) else None
        if not (isinstance(v, Struct) and v.cls == 'tags'):
            return None
        return [(st, st.alloc(Struct('entry', {'i': self.tag(eng.rv(st, vs[-1]))}), 'entry'))]

    def empty(self, eng, st, lv, name, vs, n, args):
        v = eng.load(st, lv)
        if not (isinstance(v, Struct) and v.cls == 'entry'):
            return None
        return [(st, z3.Bool(fresh_name('empty')))]

    def done(self, st, i, j, n):
        self.eng.oblige(st, 'the tags in turn, each with its values', z3.And(self.g(st)['pos'] == i, i == j), n, 'postcondition')
        self.gset(st, pos=z3.simplify(self.g(st)['pos'] + 1))

    def insert(self, eng, st, lv, name, vs, n, args):
        e = eng.load(st, lv)
        if not (isinstance(e, Struct) and e.cls == 'entry') or len(vs) != 2:
            return None
        a, b = eng.rv(st, vs[0]), eng.rv(st, vs[1])
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None and a.lv.same(b.lv)):
            raise Unsupported('values inserted')
        x = eng.load(st, a.lv)
        j = self.tag(x)
        eng.oblige(st, 'all the values', z3.And(a.off == 0, b.off == x.len), n, 'postcondition')
        self.done(st, e.f['i'], j, n)
        return [(st, Opaque('inserted'))]

    def store(self, eng, st, a, name, vs, n, args):
        e = eng.rv(st, a) if isinstance(a, LV) else None
        if not (isinstance(e, Struct) and e.cls == 'entry'):
            return None
        eng.oblige(st, 'no values are lost', z3.Not(self.P(e.f['i'])), n, 'postcondition')
        self.done(st, e.f['i'], self.tag(eng.rv(st, vs[1])), n)
        return [(st, a)]

    def candidates(self, eng, head, modified, add, T, entry):
        self.ms = []
        for c, v in head.store.items():
            if isinstance(v, Ptr) and c in modified:
                add('%s within' % c, lambda st, c=c: z3.And(st.store[c].off >= 0, st.store[c].off <= self.K))
                add('tags done up to %s' % c, lambda st, c=c: self.g(st)['pos'] == st.store[c].off)
                self.ms.append(('tags left', lambda st, c=c: self.K - st.store[c].off))
                T.append(v.off)
                eng.axioms += self.about_tag(v.off)

    def post(self, eng, st, out, ctx):
        g = self.g(st)
        if out[0] == 'throw':
            return [('refused before anything is changed', z3.And(z3.Not(g['parsed']), g['pos'] == 0))]
        return [('every tag of the text', z3.And(g['parsed'], g['pos'] == self.K))]


def lemmas():
    """what is said of the layout follows from its definition, and reading it gives the cloud back"""
    VS, KO, Z, L = z3.Function('values_size', I, I), z3.Function('tag_at', I, I), z3.Function('first_null', I, I), z3.Function('layout', I, B8)
    T = z3.Function('text', I, B8)
    m, n, i, k, x, y, l, e, p = z3.Ints('m n i k x y l e p')
    step = VS(m + 1) == VS(m) + l + 1
    out = [prove('size of the values: start', [VS(c64(0)) == 0], VS(c64(0)) >= 0),
           prove('size of the values: not negative', [l >= 0, VS(m) >= 0, step], VS(m + 1) >= 0),
           prove('size of the values: at most that of all', [l >= 0, step, VS(m + 1) <= VS(n)], VS(m) <= VS(n)),
           prove('tags: in order', [x >= 0, y >= 0, KO(i + 1) == KO(i) + x + 5 + y], KO(i) <= KO(i + 1)),
           prove('tags: none beyond the end', [x >= 0, y >= 0, KO(i + 1) == KO(i) + x + 5 + y, KO(i + 1) <= KO(k)], KO(i) <= KO(k)),
           prove('tags: after the owner', [x >= 0, y >= 0, KO(i) >= 2, KO(i + 1) == KO(i) + x + 5 + y], KO(i + 1) >= 2)]
    # a text of l characters, none of them null, laid out at p with a null after it: the first null from p on ends it
    laid = lambda j: z3.Implies(z3.And(j >= 0, j <= l), L(p + j) == z3.If(j < l, T(j), z3.BitVecVal(0, 8)))
    none = lambda j: z3.Implies(z3.And(j >= 0, j < l), T(j) != 0)
    first = [p <= Z(p), Z(p) <= n, z3.Or(Z(p) == n, L(Z(p)) == 0), z3.Implies(z3.And(p <= p + l, p + l < Z(p)), L(p + l) != 0)]
    out.append(prove('a text is read back as laid out', [p >= 0, l >= 0, p + l < n] + [f(j) for f in (laid, none) for j in (l, Z(p) - p)] + first, Z(p) == p + l))
    # the length of the values is read back as written
    w, bs = z3.BitVec('w', 32), [z3.BitVec('b%d' % b, 8) for b in range(4)]
    out.append(prove('a length is read back as laid out', [bs[b] == z3.Extract(31 - 8 * b, 24 - 8 * b, w) for b in range(4)], z3.Concat(*bs) == w))
    return out


CONTRACTS = [(TU, Read()), (TU, Size()), (TU, Write()), (TU, Sizes('serialized_size')), (TU, Sizes('needs_unsynchronisation')), (TU, Encoded()), (TU, Decode()), (TU, FromText(False)), (TU, FromText(True)), (TU, Merge())] + \
            [(TU, Edit(fn)) for fn in ('add_key', 'add_value', 'has_value')]
SEARCH_S = 6
ASSUMPTIONS = ['the bytes of a tag cloud are less than 2^32 when written, 2^40 when read',
               'count_syncs of a tag cloud counts the pairs of the bytes written (bounded: the executable contract only)',
               'urlencode and urldecode behave as their contracts say (discharged by P06)']
