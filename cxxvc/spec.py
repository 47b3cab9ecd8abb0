"""Specification functions over sequences and the loop invariant templates built from them.

A Transducer describes an output sequence made of consecutive groups: position k of an input of n
elements contributes w(k) elements emit(k, 0), ..., emit(k, w(k)-1).  L(k) is the number of elements
contributed by the positions before k.  L is an uninterpreted function with its defining equations and
facts that follow from them by induction; the inductions are discharged by lemmas()."""
import itertools
import z3
from .vals import *

I = z3.IntSort()


def prove(name, hyps, goal, ms=60000):
    s = z3.Solver()
    s.set('timeout', ms)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    d = {'name': name, 'status': 'proved' if r == z3.unsat else ('refuted' if r == z3.sat else 'unknown')}
    if r == z3.sat:
        d['model'] = str(s.model())[:600]
    return d


class Transducer:
    def __init__(self, name, n, w, emit=None, wmin=0, wmax=1, plain=None):
        self.name, self.n, self.w, self.emit, self.wmin, self.wmax, self.plain = name, n, w, emit, wmin, wmax, plain
        self.L = z3.Function(name + '_L', I, I)
        self.nx = z3.Function(name + '_nx', I, I)

    def axioms(self):
        L, n, w = self.L, self.n, self.w
        ax = [L(z3.IntVal(0)) == 0,
              FA(lambda k: z3.Implies(z3.And(0 <= k, k < n), L(k + 1) == L(k) + w(k)), self.name + ' step'),
              FA(lambda k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(L(k) >= self.wmin * k, L(k) <= self.wmax * k)), self.name + ' range'),
              FA(lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b <= n),
                                         z3.And(L(b) >= L(a) + w(a) + self.wmin * (b - a - 1),
                                                L(b) <= L(a) + w(a) + self.wmax * (b - a - 1))), self.name + ' monotone', 2)]
        if self.plain:
            nx, pl = self.nx, self.plain
            ax += [FA(lambda a: z3.Implies(z3.And(0 <= a, a <= n), z3.And(a <= nx(a), nx(a) <= n, z3.Implies(nx(a) < n, z3.Not(pl(nx(a)))))),
                      self.name + ' next'),
                   FA(lambda a, j: z3.And(z3.Implies(z3.And(0 <= a, a <= n, a <= j, j < nx(a)), pl(j)),
                                          z3.Implies(z3.And(0 <= a, a <= j, j <= nx(a), a <= n), L(j) == L(a) + j - a)), self.name + ' run', 2)]
        return ax

    def terms(self, T):
        """further instantiation terms"""
        return [self.nx(t) for t in T] if self.plain else []

    @staticmethod
    def lemmas():
        """the inductive facts above, for arbitrary w with wmin <= w <= wmax"""
        L, w, nx = z3.Function('lm_L', I, I), z3.Function('lm_w', I, I), z3.Function('lm_nx', I, I)
        a, b, lo, hi = z3.Ints('a b lo hi')
        d = z3.Int('d')      # b - a - 1, products lo*d and hi*d unfolded by hand
        plo, phi, plo1, phi1 = z3.Ints('plo phi plo1 phi1')
        out = []
        rng = lambda k: z3.And(lo <= w(k), w(k) <= hi, 0 <= lo)
        step = lambda k: L(k + 1) == L(k) + w(k)
        out.append(prove('transducer: monotone, base', [b == a + 1, step(a)], L(b) == L(a) + w(a)))
        prod = [plo1 == plo + lo, phi1 == phi + hi]     # lo*(d+1) = lo*d + lo
        out.append(prove('transducer: monotone, step', prod + [L(b) >= L(a) + w(a) + plo, L(b) <= L(a) + w(a) + phi, step(b), rng(b)],
                         z3.And(L(b + 1) >= L(a) + w(a) + plo1, L(b + 1) <= L(a) + w(a) + phi1)))
        out.append(prove('transducer: range, step', prod + [L(b) >= plo, L(b) <= phi, step(b), rng(b)],
                         z3.And(L(b + 1) >= plo1, L(b + 1) <= phi1)))
        out.append(prove('transducer: run, step', [L(b) == L(a) + b - a, w(b) == 1, step(b)], L(b + 1) == L(a) + b + 1 - a))
        return out


def char_map(eng, fn, unroll=3):
    """What a string function makes of a string of one character c: [(condition on c, [bytes])], by running it.
    Used as the specification's table of groups; whether the table is right is a separate obligation."""
    from .engine import Engine
    e2 = Engine(eng.tu, eng.A.mode, unroll=unroll, fname=eng.fname)
    e2.loops = lambda *a: None
    e2.curfn.append(fn.get('_qname', ''))
    st = St()
    c = z3.BitVec('c', 8)
    lv = st.alloc(seq_const(e2.A, [c], 'string'), 'text')
    out = []
    for s, v in e2.call_fn(fn, None, [lv], st, fn):
        v = v if isinstance(v, Throw) else e2.rv(s, v)
        cond = z3.simplify(z3.And(*[p for p in s.pc if not isinstance(p, FA)]))
        if isinstance(v, Throw):
            out.append((cond, None))
            continue
        n = e2.A.is_const(v.len)
        if n is None or n > 16:
            raise Unsupported('group of variable length')
        out.append((cond, [z3.simplify(v.get(e2.A, e2.A.const(i))) for i in range(n)]))
    return c, out


def char_transducer(name, n, f, c, cmap):
    """groups of a character-by-character function"""
    live = [(p, g) for p, g in cmap if g is not None]
    if not live:
        raise Unsupported('no groups')
    at = lambda t, k: z3.substitute(t, (c, f(k)))

    def w(k):
        r = z3.IntVal(len(live[-1][1]))
        for p, g in live[:-1]:
            if len(g) != len(live[-1][1]):
                r = z3.If(at(p, k), z3.IntVal(len(g)), r)
        return r

    def emit(k, d):
        gs = [(p, g) for p, g in live if d < len(g)]
        r = at(gs[-1][1][d], k)
        for p, g in gs[:-1]:
            r = z3.If(at(p, k), at(g[d], k), r)
        return r
    ls = [len(g) for _, g in live]
    return Transducer(name, n, w, emit, min(ls), max(ls))


def comps(v, path=()):
    """(kind, path) of the scalar and sequence components of a value"""
    if z3.is_expr(v):
        if v.sort() == I:
            yield 'int', path
        elif z3.is_bool(v):
            yield 'bool', path
        elif z3.is_bv(v) and v.size() <= 32:
            yield 'bv', path
    elif isinstance(v, Seq):
        yield 'len', path
        if v.ew == 8:
            yield 'seq', path
    elif isinstance(v, Ptr):
        if v.lv is not None and not v.single:
            yield 'off', path
    elif isinstance(v, Struct):
        for k, x in v.f.items():
            for o in comps(x, path + (k,)):
                yield o


def at(st, cell, path):
    v = st.store[cell]
    for p in path:
        v = v.f[p]
    return v


def is_mod(modified, cell, kind, path):
    ps = modified.get(cell)
    if not ps:
        return False
    pre = tuple('f:' + p for p in path)
    tag = {'int': 'val', 'bool': 'val', 'bv': 'val', 'len': 'len', 'seq': 'seq', 'off': 'off'}[kind]
    return pre + (tag,) in ps


class Pos:
    """a program quantity, as a function of the state"""

    def __init__(self, name, fn, mod):
        self.name, self.fn, self.mod = name, fn, mod


def positions(head, modified):
    """integer quantities of the state: (variables changed by the loop, other quantities)"""
    out, seen = [], {}
    for cell, v in head.store.items():
        for kind, path in comps(v):
            if kind not in ('int', 'len', 'off'):
                continue
            m = is_mod(modified, cell, kind, path)

            def fn(st, cell=cell, path=path, kind=kind):
                x = at(st, cell, path)
                return x.len if kind == 'len' else (x.off if kind == 'off' else x)
            t = z3.simplify(fn(head))
            if not m:
                if z3.is_int_value(t) or t.get_id() in seen:
                    continue
            if t.get_id() in seen:
                continue
            seen[t.get_id()] = t
            out.append(Pos('.'.join((cell.split('!')[0],) + path) + {'int': '', 'len': '.size', 'off': ''}[kind], fn, m))
    return out


def seqs(head, modified):
    for cell, v in head.store.items():
        for kind, path in comps(v):
            if kind == 'seq':
                yield cell, path, is_mod(modified, cell, 'seq', path), is_mod(modified, cell, 'len', path)


class TransLoop:
    """Invariant templates: quantities tied to positions and fold values, output groups already emitted,
    parts of a sequence not yet overwritten, elements already searched."""

    def __init__(self, trs=(), folds=(), preds=(), inp=None, n=None, bits=(), extra=(), ahead=1):
        self.ahead = ahead
        self.trs, self.folds, self.preds, self.inp, self.n, self.bits, self.extra = trs, folds, preds, inp, n, bits, extra

    def setup(self, eng, inst, entry, head, modified):
        ps = positions(head, modified)
        if self.n is not None and not any(z3.simplify(p.fn(head)).eq(z3.simplify(self.n)) for p in ps):
            ps.append(Pos('n', lambda st: self.n, False))
        vs = [p for p in ps if p.mod]
        # quantities fixed in the loop matter only if some variable is compared with them: keep a few
        fixed = [p for p in ps if not p.mod][:6]
        ps = vs + fixed
        inst.phases = [[], [], [], []]     # linear; searched and unchanged parts; fold values; groups emitted
        ph = [0]

        def add(c):
            inst.cands.append(c)
            inst.phases[ph[0]].append(c)
        zero = z3.IntVal(0)

        def val(p, st):
            return p.fn(st)

        for v in vs:
            e = z3.simplify(v.fn(entry))
            add(('%s >= 0' % v.name, lambda st, v=v: v.fn(st) >= 0, 0))
            add(('%s >= entry' % v.name, lambda st, v=v, e=e: v.fn(st) >= e, 0))
            add(('%s <= entry' % v.name, lambda st, v=v, e=e: v.fn(st) <= e, 0))
            add(('%s < 2^62' % v.name, lambda st, v=v: v.fn(st) < (1 << 62), 0))
            add(('%s < 2^63' % v.name, lambda st, v=v: v.fn(st) < (1 << 63), 0))
            for u in ps:
                if u is v:
                    continue
                for d in (-1, 0, 1):
                    add(('%s <= %s%+d' % (v.name, u.name, d), lambda st, u=u, v=v, d=d: v.fn(st) <= u.fn(st) + d, 0))
                    if not u.mod:
                        add(('%s >= %s%+d' % (v.name, u.name, d), lambda st, u=u, v=v, d=d: v.fn(st) >= u.fn(st) + d, 0))
                    add(('%s == %s%+d' % (v.name, u.name, d), lambda st, u=u, v=v, d=d: v.fn(st) == u.fn(st) + d, 0))
                    eu = z3.simplify(u.fn(entry))
                    if u.mod and d == 0 and not z3.simplify(e - eu).eq(zero):
                        add(('%s - entry == %s - entry' % (v.name, u.name),
                             lambda st, u=u, v=v, e=e, eu=eu: v.fn(st) - e == u.fn(st) - eu, 0))
                        add(('%s + %s == entry sum' % (v.name, u.name),
                             lambda st, u=u, v=v, e=e, eu=eu: v.fn(st) + u.fn(st) == e + eu, 0))
        ph[0] = 2
        folds = list(self.folds) + [(t.name, t.L) for t in self.trs]
        for fname, F in folds:
            for v in vs:
                e = z3.simplify(v.fn(entry))
                for u in ps:
                    if u is v and not u.mod:
                        continue
                    for d in (-1, 0, 1):
                        for c in (-1, 0, 1):
                            def fn(st, u=u, v=v, d=d, c=c, F=F):
                                k = z3.simplify(u.fn(st) + d)
                                st.add_T(k)
                                return v.fn(st) == F(k) + c
                            add(('%s == %s(%s%+d)%+d' % (v.name, fname, u.name, d, c), fn, 0))
                        if not z3.is_int_value(e):
                            def fn2(st, u=u, v=v, d=d, e=e, F=F):
                                k = z3.simplify(u.fn(st) + d)
                                st.add_T(k)
                                return v.fn(st) == F(k) + e
                            add(('%s == %s(%s%+d)+entry' % (v.name, fname, u.name, d), fn2, 0))
            # u - F(u) style relations between three quantities
            for v, u in itertools.permutations(ps, 2):
                if not (u.mod or v.mod):
                    continue
                for c in (-1, 0, 1):
                    def fn3(st, u=u, v=v, c=c, F=F):
                        st.add_T(u.fn(st))
                        return u.fn(st) - v.fn(st) == F(u.fn(st)) + c
                    add(('%s - %s == %s(%s)%+d' % (u.name, v.name, fname, u.name, c), fn3, 0))
        for cell, path, ms, ml in seqs(head, modified):
            if not (ms or ml):
                continue
            nm = '.'.join((cell.split('!')[0],) + path)
            es = at(entry, cell, path)
            A = eng.A
            bases = [zero]
            el = z3.simplify(es.len)
            if not el.eq(zero) and ml:
                bases.append(el)
            ph[0] = 3
            for t in self.trs:
                if t.emit is None:
                    continue
                for u in ps:
                    for d in (-1, 0, 1):
                        for bi, b in enumerate(bases):
                            def fn4(st, k, u=u, d=d, b=b, t=t, cell=cell, path=path):
                                up = z3.simplify(u.fn(st) + d)
                                st.add_T(up)
                                s = at(st, cell, path)
                                cs = []
                                for q in range(t.wmax):
                                    p = z3.simplify(b + t.L(k) + q)
                                    cs.append(z3.Implies(t.w(k) > q, s.get(A, p) == t.emit(k, q)))
                                return z3.Implies(z3.And(0 <= k, k < up, k < t.n), z3.And(*cs))
                            add(('%s holds %s up to %s%+d (base %d)' % (nm, t.name, u.name, d, bi), fn4, 1))
            # unchanged parts
            ph[0] = 1
            lows = []
            for u in ps:
                for d in (-1, 0, 1):
                    lows.append(('%s%+d' % (u.name, d), lambda st, u=u, d=d: u.fn(st) + d))
            for u, v in itertools.permutations(ps, 2):
                if u.mod or v.mod:
                    for d in (-1, 0, 1):
                        lows.append(('%s-%s%+d' % (u.name, v.name, d), lambda st, u=u, v=v, d=d: u.fn(st) - v.fn(st) + d))
            refs = [('entry', es)] if not ml else []
            if not ml and self.inp is not None:
                refs.append(('input', self.inp))
            for rn, ref in refs:
                for ln, low in lows:
                    def fn5(st, j, low=low, ref=ref, cell=cell, path=path):
                        s = at(st, cell, path)
                        return z3.Implies(z3.And(j >= low(st), j >= 0, j < ref.len), s.get(A, j) == ref.get(A, j))
                    add(('%s from %s is %s' % (nm, ln, rn), fn5, 1))
            if not el.eq(zero):
                def fn6(st, j, cell=cell, path=path, es=es, el=el):
                    return z3.Implies(z3.And(j >= 0, j < el), at(st, cell, path).get(A, j) == es.get(A, j))
                add(('%s keeps its old contents' % nm, fn6, 1))
        ph[0] = 1
        for pn, pred in self.preds:
            for u in vs:
                for d in (-1, 0, 1):
                    for neg in (False, True):
                        def fn9(st, u=u, d=d, pred=pred, neg=neg):
                            b = pred(z3.simplify(u.fn(st) + d))
                            return z3.Not(b) if neg else b
                        add(('%s%s at %s%+d' % ('not ' if neg else '', pn, u.name, d), fn9, 0))
            for u in vs:
                eu = z3.simplify(u.fn(entry))
                lo = [('0', zero)]
                if not eu.eq(zero):
                    lo.append(('entry', eu))
                for ln, l in lo:
                    for d in (-1, 0, 1):
                        def fn7(st, j, u=u, l=l, d=d, pred=pred):
                            st.add_T(u.fn(st))
                            return z3.Implies(z3.And(j >= l, j < u.fn(st) + d), pred(j))
                        add(('%s from %s to %s%+d' % (pn, ln, u.name, d), fn7, 1))
        # one-element memories
        ph[0] = 1
        for cell, v in head.store.items():
            for kind, path in comps(v):
                if kind not in ('bool', 'bv') or not is_mod(modified, cell, kind, path):
                    continue
                nm = '.'.join((cell.split('!')[0],) + path)
                for bn, bit in self.bits:
                    for u in ps:
                        for d in (-1, 0, 1):
                            def fn8(st, u=u, d=d, bit=bit, cell=cell, path=path):
                                k = z3.simplify(u.fn(st) + d)
                                st.add_T(k)
                                b = bit(k)
                                x = at(st, cell, path)
                                if z3.is_bool(b) and z3.is_bool(x):
                                    return x == b
                                if z3.is_bool(b) and z3.is_bv(x):
                                    return (x != 0) == b
                                if z3.is_bv(b) and z3.is_bv(x):
                                    if b.size() < x.size():
                                        return z3.Or(x == z3.ZeroExt(x.size() - b.size(), b), x == z3.SignExt(x.size() - b.size(), b))
                                    if b.size() == x.size():
                                        return x == b
                                return z3.BoolVal(False)
                            add(('%s is %s(%s%+d)' % (nm, bn, u.name, d), fn8, 0))
        for x in self.extra:
            x(eng, inst, entry, head, modified, ps, vs)
        inst.extra_T = []
        for v in vs:
            t = v.fn(head)
            inst.extra_T += [t, t - 1] + [t + 1 + i for i in range(self.ahead)]
        for p in fixed:
            inst.extra_T.append(p.fn(head))
        # termination measures
        for v in vs:
            inst.measures.append((v.name, lambda st, v=v: v.fn(st)))
            for u in ps:
                if u is not v:
                    inst.measures.append(('%s - %s' % (u.name, v.name), lambda st, u=u, v=v: u.fn(st) - v.fn(st)))
                    inst.measures.append(('%s - %s + 1' % (u.name, v.name), lambda st, u=u, v=v: u.fn(st) - v.fn(st) + 1))
