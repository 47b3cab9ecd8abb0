"""P11: padding is redistributed exactly or refused, never wrapped around."""
import os
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc.spec import Transducer, TransLoop, prove

DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P11.cc')
I, Bo = z3.IntSort(), z3.BoolSort()
TAG = 'scribbu::id3v2_tag'
CAP = 1 << 40


class Tags(Contract):
    """an arbitrary range of tags; their padding and size are those of the accessors' contracts"""
    mode = 'int'
    least = 0

    def tags(self, eng, st):
        n = self.n = z3.Int('num_tags')
        st.assume(z3.And(n >= self.least, n < (1 << 20)))
        old = self.old = z3.Function('padding', I, I)
        st.assume(FA(lambda j: z3.And(old(j) >= 0, old(j) < CAP), 'padding below 2^40'))
        self.size = z3.Function('size', I, Bo, I)
        self.needs = z3.Function('needs_unsync', I, Bo)
        st.assume(FA(lambda j: z3.And(self.size(j, z3.BoolVal(True)) >= 0, self.size(j, z3.BoolVal(True)) < CAP,
                                      self.size(j, z3.BoolVal(False)) >= 0, self.size(j, z3.BoolVal(False)) < CAP), 'size below 2^40'))
        self.objs = st.alloc(Seq(lambda j: Struct(TAG, {}), n, None, 'vector'), 'tag')
        self.pads = st.alloc(Seq(lambda j: old(j), n, 'int', 'vector'), 'padding')
        objs = self.objs
        vec = st.alloc(Seq(lambda j: Ptr(objs.elem(j), z3.IntVal(0), single=True), n, None, 'vector'), 'tags')
        st.add_T(n)
        eng.abstract_methods[TAG + '::padding'] = self.padding
        eng.abstract_methods[TAG + '::size'] = self.tag_size
        eng.abstract_methods[TAG + '::needs_unsynchronisation'] = self.tag_needs
        return Ptr(vec, z3.IntVal(0)), Ptr(vec, n)

    def index(self, eng, st, lv):
        if lv.cell != self.objs.cell:
            raise Unsupported('padding of another object')
        st.add_T(lv.path[0][1])
        return lv.path[0][1]

    def padding(self, eng, st, lv, vs, n):
        j = self.index(eng, st, lv)
        if not vs:
            v = eng.load(st, LV(self.pads.cell, (('i', j),)))
            yield st, v
        else:
            eng.storev(st, LV(self.pads.cell, (('i', j),)), eng.rv(st, vs[0]))
            yield st, None

    def tag_size(self, eng, st, lv, vs, n):
        b = eng.to_bool(eng.rv(st, vs[0])) if vs else z3.BoolVal(False)
        yield st, self.size(self.index(eng, st, lv), b)

    def tag_needs(self, eng, st, lv, vs, n):
        yield st, self.needs(self.index(eng, st, lv))

    def small(self, ctx):
        return [z3.And(self.n <= 2, *self.tiny()), self.n <= 3]

    def tiny(self):
        return []

    def ev_tags(self, ev):
        n = ev(self.n)
        if n is None or n > 16:
            return None
        out = '%02x' % n
        for j in range(n):
            v = ev(self.old(z3.IntVal(j)))
            if v is None or not 0 <= v < CAP:
                v = 0
            out += '%010x' % v
        return out


class Adjust(Tags):
    """each tag gets its share of the difference (the first one the remainder too), or the request is refused"""
    qname = 'scribbu::adjust_padding_to'
    least = 1

    def pre(self, eng, st):
        p0, p1 = self.tags(eng, st)
        new, cur, strat = z3.Int('cb_new'), z3.Int('cb_curr'), z3.BitVec('strategy', 32)
        st.assume(z3.And(new >= 0, new < (1 << 62), cur >= 0, cur < (1 << 62)))
        st.assume(strat == 0)
        total = new - cur
        self.q, self.r = eng.tdiv(total, self.n), eng.tmod(total, self.n)
        for f in eng.div_facts(total, self.n, self.q, self.r):
            st.assume(f)
        self.total = total
        return None, [p0, p1, new, cur, strat], (new, cur)

    def share(self, j):
        return self.q + z3.If(j == 0, self.r, 0)

    def loops(self, eng, nd, st, fn):
        old, pads = self.old, self.pads

        def templates(eng, inst, entry, head, modified, ps, vs):
            for u in ps:
                for d in (-1, 0, 1):
                    def done(st, j, u=u, d=d):
                        st.add_T(u.fn(st))
                        return z3.Implies(z3.And(j >= 0, j < self.n, j < u.fn(st) + d), eng.load(st, pads).get(eng.A, j) == old(j) + self.share(j))

                    def todo(st, j, u=u, d=d):
                        return z3.Implies(z3.And(j >= 0, j < self.n, j >= u.fn(st) + d), eng.load(st, pads).get(eng.A, j) == old(j))
                    for c in (('adjusted below %s%+d' % (u.name, d), done, 1), ('unchanged from %s%+d' % (u.name, d), todo, 1)):
                        inst.cands.append(c)
                        inst.phases[1].append(c)
        return TransLoop(n=self.n, extra=[templates], preds=[('enough padding', lambda j: old(j) + self.share(j) >= 0)])

    def post(self, eng, st, out, ctx):
        A, old, n = eng.A, self.old, self.n
        if out[0] == 'throw':
            ts = [z3.IntVal(0)] + list(st.T)
            return [('refused only if some tag has too little', z3.Or(*[z3.And(t >= 0, t < n, old(t) + self.share(t) < 0) for t in ts if t.sort() == I]))]
        p = eng.load(st, self.pads)
        return [('each tag gets its share', FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), p.get(A, j) == old(j) + self.share(j)))),
                ('no padding wraps around', FA(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(p.get(A, j) >= 0, p.get(A, j) <= old(j) + z3.If(self.total > 0, self.total, 0)))))]

    def tiny(self):
        return [self.total < 1000, self.total > -1000]

    def witness(self, ev, ctx):
        h = self.ev_tags(ev)
        new, cur = ev(ctx[0]), ev(ctx[1])
        if h is None or new is None or cur is None:
            return None
        return '01%016x%016x' % (new, cur) + h


class Sizes(Tags):
    """the sums of the tags' sizes and paddings"""
    mode = 'int'

    def __init__(self, fn, header):
        self.qname, self.header = 'scribbu::' + fn, header

    def pre(self, eng, st):
        p0, p1 = self.tags(eng, st)
        if self.header:
            u = z3.BitVec('unsync', 32)
            st.assume(z3.ULE(u, 2))     # always, never, as_needed
            do = lambda j: z3.Or(u == 0, z3.And(u == 2, self.needs(j)))
        else:
            u = z3.Bool('unsync')
            do = lambda j: u
        self.tot = Transducer('total', self.n, lambda j: self.size(j, do(j)) + self.header, None, 0, CAP + 10)
        self.pad = Transducer('pad', self.n, lambda j: self.old(j), None, 0, CAP)
        eng.axioms += self.tot.axioms() + self.pad.axioms()
        return None, [p0, p1, u], (u,)

    def loops(self, eng, nd, st, fn):
        return TransLoop([self.tot, self.pad], n=self.n)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        r = eng.rv(st, out[1])
        v = list(r.f.values())
        p = eng.load(st, self.pads)
        return [('total size', eng.rv(st, v[0]) == self.tot.L(self.n)), ('total padding', eng.rv(st, v[1]) == self.pad.L(self.n)),
                ('paddings kept', FA(lambda j: z3.Implies(z3.And(j >= 0, j < self.n), p.get(eng.A, j) == self.old(j))))]

    def witness(self, ev, ctx):
        h = self.ev_tags(ev)
        u = ev(ctx[0])
        return None if h is None else '%02x%02x' % (2 if self.header else 3, int(u)) + h


class Accessor(Contract):
    """padding() gives what padding(n) was last given"""
    mode = 'int'

    def __init__(self, ver, setter):
        self.cls, self.setter = 'scribbu::id3v2_%d_tag' % ver, setter
        self.qname = self.cls + '::padding'
        self.label = self.qname + (' (set)' if setter else ' (get)')

    def pick(self, f):
        return (len([c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']) == 1) == self.setter

    def pre(self, eng, st):
        v = z3.Int('padding')
        st.assume(z3.And(v >= 0, v < (1 << 64)))
        o = Struct(self.cls, {'padding_': z3.Int('before') if self.setter else v})
        lv = st.alloc(o, 'tag')
        return lv, [v] if self.setter else [], (lv, v)

    def post(self, eng, st, out, ctx):
        lv, v = ctx
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        g = [('padding kept', eng.load(st, lv.field('padding_')) == v)]
        if not self.setter:
            g.append(('padding returned', eng.rv(st, out[1]) == v))
        return g


def lemmas():
    """the shares add up to the difference"""
    out = Transducer.lemmas()
    S, P = z3.Function('share_sum', I, I), z3.Function('product', I, I)
    k, q, r, n, total = z3.Ints('k q r n total')
    step = S(k + 1) == S(k) + q + z3.If(k == 0, r, 0)
    # P(k) = q*k
    out.append(prove('shares: base', [S(z3.IntVal(0)) == 0, P(z3.IntVal(0)) == 0, k == 0, step, P(k + 1) == P(k) + q], S(k + 1) == P(k + 1) + r))
    out.append(prove('shares: step', [k >= 1, S(k) == P(k) + r, step, P(k + 1) == P(k) + q], S(k + 1) == P(k + 1) + r))
    out.append(prove('shares: total', [n >= 1, S(n) == P(n) + r, P(n) == q * n, total == q * n + r], S(n) == total))
    return out


CONTRACTS = [(DRV, Adjust()), (DRV, Sizes('tagset_sizes', 10)), (DRV, Sizes('total_id3v2_size', 0))] + \
            [(DRV, Accessor(v, s)) for v in (2, 3, 4) for s in (False, True)]
SEARCH_S = 4
ASSUMPTIONS = ['at least one and fewer than 2^20 tags; each size and padding below 2^40, requested sizes below 2^62',
               'the padding of distinct tags is distinct state (no tag occurs twice in the range)',
               'meaning of the built-in division: a == (a/b)*b + a%b']
