"""Contracts: run a function symbolically, generate obligations, infer loop invariants, discharge."""
import os, time, traceback, itertools
import z3
from .cast import TU, Unsupported, FrontEndError
from .vals import *
from .engine import Engine, Obligation, Edge, LoopInst

QUERY_MS = int(os.environ.get('CXXVC_QUERY_MS', '20000'))
CONTRACT_S = float(os.environ.get('CXXVC_CONTRACT_S', '200'))   # processor time of the solver for one function; what is open after that is unknown
WALL_S = float(os.environ.get('CXXVC_WALL_S', '420'))           # the same by the clock


def crowded():
    """how much longer a query takes by the clock because other processes are running"""
    try:
        return min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))
    except OSError:
        return 1.0


class Contract:
    """A machine-checked specification of one repository function.

    qname / pick   the function (all overloads accepted by pick)
    mode           arithmetic mode
    pre(eng, st)   builds the arbitrary call: returns (this_lv, [args], ctx)
    post(eng, st, out, ctx)  list of (name, goal) for an outcome; out is ('ret', v) or ('throw', Throw)
    witness(eval, ctx)  concrete input (bytes for the harness) from a counterexample
    """
    qname = ''
    mode = 'bv'
    unroll = 0
    filters = ('scribbu',)
    label = None
    expect_return = True

    def pick(self, f):
        return True

    def pre(self, eng, st):
        raise NotImplementedError

    def post(self, eng, st, out, ctx):
        raise NotImplementedError

    def witness(self, ev, ctx):
        return None

    def small(self, ctx):
        """constraints tried in turn to get a small counterexample"""
        return []

    def loops(self, eng, n, st, fn):
        return None

    def configure(self, eng):
        pass

    def name(self):
        return self.label or self.qname


_inst = {}


def inst_FA(fa, T):
    """instances of a quantified fact; built once per fact and index terms"""
    out = []
    for ts in itertools.product(T, repeat=fa.arity):
        if fa.only is not None and not fa.only(*ts):
            continue
        k = (id(fa),) + tuple(t.get_id() for t in ts)
        r = _inst.get(k)
        if r is None:
            r = _inst[k] = (fa.fn(*ts), fa, ts)
        out.append(r[0])
    return out


class Discharger:
    def __init__(self, eng):
        self.eng = eng
        self.active = {}     # inst sym name -> list of (name, fn, arity)
        self.time = 0.0
        self.queries = 0
        self.cache = {}
        self.edge_J = {}
        self.simp = {}
        self.word_cache = {}
        self.t0 = time.time()
        self.gave_up = False     # some candidate invariant was dropped because the solver gave up on it
        for k, i in eng.loop_insts.items():
            self.active[k] = list(i.cands)

    def base_T(self, T):
        z = self.eng.A.const(0)
        out, seen = [], set()
        for t in [z] + list(T):
            r = self.simp.get(t.get_id())
            if r is None:
                r = self.simp[t.get_id()] = (z3.simplify(t), t)
            t = r[0]
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
        return out

    def at_state(self, c, st, j):
        """a candidate at a state (and index): the term and the index terms it mentions"""
        k = (id(c), id(st), j.get_id() if c[2] else None)
        r = self.cache.get(k)
        if r is None:
            saved, st.T = st.T, []
            g = c[1](st) if c[2] == 0 else c[1](st, j)
            r = self.cache[k] = (g, st.T, c, st, j)
            st.T = saved
        return r[0], r[1]

    def facts(self, pc, T):
        """pc with quantified facts and loop invariants instantiated at T: (facts, lazily used instances)"""
        out, lazy = [], []
        T = list(T)
        insts = []
        for p in pc:
            if not isinstance(p, FA) and z3.is_const(p) and z3.is_bool(p) and p.decl().name() in self.eng.loop_insts:
                insts.append(self.eng.loop_insts[p.decl().name()])
        for i in insts:
            T += i.head.T + list(getattr(i, 'extra_T', []))
            for c in self.active[i.sym.decl().name()]:
                g, ts = self.at_state(c, i.head, self.eng.A.const(0))
                T += ts
                if c[2] == 0:
                    out.append(g)
        T = self.base_T(T)
        T2 = T
        if self.eng.term_gens:
            T2 = self.base_T(T + [t for g in self.eng.term_gens for t in g(T)])
        for p in pc:
            if isinstance(p, FA):
                lazy += inst_FA(p, T2 if p.arity == 1 else T)
            else:
                out.append(p)
        for i in insts:
            for c in self.active[i.sym.decl().name()]:
                if c[2] != 0:
                    for t in T:
                        lazy.append(self.at_state(c, i.head, t)[0])
        for ax in self.eng.axioms:
            if isinstance(ax, FA):
                lazy += inst_FA(ax, T2 if ax.arity == 1 else T)
            else:
                out.append(ax)
        return out, lazy

    def words(self, f):
        """applications of VALUE32 and WORD32 in a formula"""
        r = self.word_cache.get(f.get_id())
        if r is None:
            out, todo, seen = {}, [f], set()
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app(e):
                    if e.decl().eq(VALUE32) or e.decl().eq(WORD32):
                        out[e.get_id()] = e
                    todo += e.children()
            r = self.word_cache[f.get_id()] = (out, f)
        return r[0]

    def left(self, s):
        return min(s, max(0.0, CONTRACT_S - self.time), max(0.0, WALL_S - (time.time() - self.t0)))

    def check(self, fs, neg, ms=None):
        """fs: (facts, lazy instances); instances a model violates are added until there is no model or none is violated"""
        fs, lazy = fs if isinstance(fs, tuple) else (fs, [])
        s = z3.Solver()
        for f in fs:
            s.add(f)
        s.add(neg)
        limit = self.left((ms or QUERY_MS) / 1000.0)
        t0 = time.process_time()
        self.queries += 1
        lazy = list(lazy)
        words = {}
        if self.eng.A.lazy_value:
            for f in fs + lazy + [neg]:
                words.update(self.words(f))
            for w in list(words.values()):
                if w.decl().eq(WORD32):
                    t = w.arg(0)
                    x = VALUE32(w)
                    s.add(z3.Implies(z3.And(t >= 0, t < (1 << 32)), x == t))
                    words[x.get_id()] = x
            for w in list(words.values()):
                if w.decl().eq(VALUE32):
                    s.add(w >= 0, w < (1 << 32))
                    if self.eng.A.lazy_word:
                        s.add(WORD32(w) == w.arg(0))
        if len(lazy) <= 60:
            for f in lazy:
                s.add(f)
            lazy = []
        r, m = z3.unknown, None
        while True:
            left = limit - (time.process_time() - t0)
            if left <= 0:
                r, m = z3.unknown, None
                break
            s.set('timeout', int(left * crowded() * 1000) + 1)
            r = s.check()
            if r != z3.sat:
                break
            m = s.model()
            keep, bad = [], []
            for f in lazy:
                if len(bad) < 60 and z3.is_false(m.eval(f, model_completion=True)):
                    bad.append(f)
                else:
                    keep.append(f)
            if not bad:
                for w in words.values():
                    v = m.eval(w.arg(0), model_completion=True)
                    if w.decl().eq(WORD32):
                        c = z3.BitVecVal(v.as_long() % (1 << 32), 32)
                        if not z3.is_true(z3.simplify(m.eval(w, model_completion=True) == c)):
                            bad.append(z3.Implies(w.arg(0) == v, w == c))
                        continue
                    if not z3.is_true(z3.simplify(m.eval(w, model_completion=True) == v.as_long())):
                        bad.append(z3.Implies(w.arg(0) == v, w == v.as_long()))
            if not bad:
                break
            for f in bad:
                s.add(f)
            lazy = keep
        self.time += time.process_time() - t0
        return r, (m if r == z3.sat else None), s

    def houdini(self):
        edges = [r for r in self.eng.recs if isinstance(r, Edge)]
        nph = max([len(getattr(i, 'phases', [])) for i in self.eng.loop_insts.values()] + [0])
        if nph == 0:
            return self.fixpoint(edges)
        for k in self.active:
            self.active[k] = []
        dropped = {k: [] for k in self.active}
        for ph in range(nph + 1):
            for k, i in self.eng.loop_insts.items():
                phs = getattr(i, 'phases', None) or [list(i.cands)]
                if ph < len(phs):
                    new = list(phs[ph])
                elif ph == nph:
                    new = [c for c in phs[0] if c not in self.active[k]]
                else:
                    new = []
                self.active[k] = self.active[k] + new
            self.fixpoint(edges)

    def fixpoint(self, edges):
        dirty = True
        rounds = 0
        while dirty:
            dirty = False
            rounds += 1
            if rounds > 400:
                raise Unsupported('invariant inference does not converge')
            for e in edges:
                key = e.inst.sym.decl().name()
                while True:
                    cands = self.active[key]
                    if not cands:
                        break
                    if id(e) not in self.edge_J:
                        self.edge_J[id(e)] = self.eng.A.fresh('J')
                    J = self.edge_J[id(e)]
                    goals, T = [], e.st.T + [J]
                    for c in cands:
                        g, ts = self.at_state(c, e.st, J)
                        goals.append(g)
                        T += ts
                    fs = self.facts(e.st.pc, T)
                    r, m, _ = self.check(fs, z3.Or(*[z3.Not(g) for g in goals]))
                    if r == z3.unsat:
                        break
                    dirty = True
                    if r == z3.sat:
                        keep = []
                        for c, g in zip(cands, goals):
                            if not z3.is_false(m.eval(g, model_completion=True)):
                                keep.append(c)
                        if len(keep) == len(cands):
                            keep = self._each(fs, cands, goals)
                    else:
                        keep = self._each(fs, cands, goals)
                    if len(keep) == len(cands):
                        break
                    self.active[key] = keep

    def _each(self, fs, cands, goals):
        keep = []
        for c, g in zip(cands, goals):
            r, m, _ = self.check(fs, z3.Not(g), 4000)
            if r == z3.unsat:
                keep.append(c)
            elif r == z3.unknown:
                self.gave_up = True
        return keep

    def terminate(self):
        """obligations: some measure decreases along every back edge"""
        obs = []
        for k, i in self.eng.loop_insts.items():
            backs = [r for r in self.eng.recs if isinstance(r, Edge) and r.inst is i and r.kind == 'back']
            o = Obligation('loop terminates', [], [], z3.BoolVal(True), i.where, self.eng.fname, 'termination')
            ok = not backs
            t0 = time.time()
            for (nm, fn) in i.measures:
                good = True
                for b in backs:
                    fs = self.facts(b.st.pc, b.st.T)
                    mh, mb = fn(i.head), fn(b.st)
                    r, m, _ = self.check(fs, z3.Not(z3.And(mh > mb, mh >= 0)), 5000)
                    if r != z3.unsat:
                        good = False
                        break
                if good:
                    ok = True
                    break
            o.time = time.time() - t0
            o.status = 'proved' if ok else 'unknown'
            obs.append(o)
        return obs

    def prove(self, o):
        t0 = time.time()
        T = list(o.T)
        goal = o.goal
        if isinstance(goal, FA):
            J = [self.eng.A.fresh('sk') for _ in range(goal.arity)]
            o.skolems = J
            T += J
            goal = goal.fn(*J)
        fs = self.facts(o.pc, T)
        r, m, s = self.check(fs, z3.Not(goal))
        if r == z3.unknown:
            r, m = self.second(fs, z3.Not(goal))
        o.time = time.time() - t0
        o.status = 'proved' if r == z3.unsat else ('refuted' if r == z3.sat and not self.gave_up else 'unknown')
        o.model = m
        o.query = (fs, goal)
        return o.status

    def shrink(self, o, small):
        fs, goal = o.query
        for c in small:
            r, m, s = self.check(fs, z3.And(z3.Not(goal), c), 5000)
            if r == z3.sat:
                o.model = m
                return

    def second(self, fs, neg):
        for tac in ('qfaufbv', 'smt'):
            try:
                s = z3.Tactic(tac).solver()
                left = int(1000 * self.left(QUERY_MS / 1000.0))
                if left <= 0:
                    break
                s.set('timeout', int(left * crowded()) + 1)
                t0 = time.process_time()
                for f in (fs[0] + fs[1] if isinstance(fs, tuple) else fs):
                    s.add(f)
                s.add(neg)
                r = s.check()
                self.time += time.process_time() - t0
                if r == z3.unsat or r == z3.sat and not self.eng.A.lazy_value:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None


def evaluator(model):
    def ev(t):
        v = model.eval(t, model_completion=True)
        if z3.is_bv_value(v) or z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None
    return ev


def run_contract(c, tu, fn):
    """result dictionary for one function under contract"""
    t0 = time.time()
    res = {'function': c.name(), 'qname': c.qname, 'where': '%s:%s' % (os.path.basename(fn.get('_file', '')), fn.get('_line')),
           'obligations': [], 'error': None, 'inlined': [], 'models': [], 'assumptions': [], 'witnesses': [], 'callee_contracts': []}
    try:
        eng = Engine(tu, c.mode, unroll=c.unroll, fname=c.name())
        eng.loops = c.loops
        eng.fn = fn
        c.configure(eng)
        st = St()
        this, args, ctx = c.pre(eng, st)
        eng.curfn.append(fn.get('_qname', c.qname))
        nret, npaths = [], 0
        for s1, v in eng.call_fn(fn, this, args, st, fn):
            npaths += 1
            if npaths > 4000:
                raise Unsupported('too many paths')
            out = ('throw', v) if isinstance(v, Throw) else ('ret', v)
            if out[0] == 'ret':
                nret.append(s1)
            for item in c.post(eng, s1, out, ctx):
                nm, goal = item[0], item[1]
                o = eng.oblige(item[2] if len(item) > 2 else s1, nm, goal, None, 'post')
                o.where = 'postcondition'
        d = Discharger(eng)
        d.houdini()
        obs = [r for r in eng.recs if isinstance(r, Obligation)]
        if not obs:
            raise Unsupported('no obligations generated')
        bad = 0
        for o in obs:
            if o.status == 'proved':
                continue
            if bad >= 6:
                o.status = 'skipped'
                continue
            d.prove(o)
            if o.status != 'proved':
                bad += 1
            if o.model is not None:
                d.shrink(o, c.small(ctx))
                try:
                    w = c.witness(evaluator(o.model), ctx)
                    if w is not None:
                        res['witnesses'].append({'obligation': o.name, 'input': w})
                except Exception as e:
                    res['witnesses'].append({'obligation': o.name, 'error': repr(e)})
        obs += d.terminate()
        # vacuity guard: some normal return is reachable
        if c.expect_return:
            ok = False
            for s1 in nret:
                r, m, _ = d.check(d.facts(s1.pc, s1.T), z3.BoolVal(True))
                if r == z3.sat:
                    ok = True
                    break
                if r == z3.unknown:
                    ok = ok or None
            if ok is False:
                raise Unsupported('vacuous: no normal return is reachable')
        agg = {}
        for o in obs:
            k = (o.name, o.where)
            a = agg.setdefault(k, {'name': o.name, 'where': o.where, 'kind': o.kind, 'count': 0, 'proved': 0, 'status': 'proved', 'time': 0.0, 'model': None})
            a['count'] += 1
            a['time'] += o.time
            if o.status == 'proved':
                a['proved'] += 1
            elif a['status'] == 'proved' or o.status == 'refuted':
                a['status'] = o.status
                if o.model is not None:
                    a['model'] = str(o.model)[:1500]
        res['obligations'] = list(agg.values())
        res['paths'] = npaths
        res['solver_s'] = round(d.time, 3)
        res['queries'] = d.queries
        res['loops'] = [{'where': i.where, 'invariants': [n for (n, _, _) in d.active[k]]} for k, i in eng.loop_insts.items()]
        res['inlined'] = sorted(eng.inlined - {fn.get('_qname')})
        res['models'] = sorted(eng.used_models)
        res['callee_contracts'] = sorted(eng.used_contracts)
        res['assumptions'] = sorted(eng.assumptions)
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, NotImplementedError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['error'] = 'internal: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno)
        if os.environ.get('CXXVC_DEBUG'):
            traceback.print_exc()
    res['wall_s'] = round(time.time() - t0, 3)
    return res


_TU = {}


def get_tu(path, filters):
    k = (path, tuple(filters))
    if k not in _TU:
        _TU[k] = TU(path, filters)
    return _TU[k]


def verify(contracts, jobs=8):
    """contracts: list of (tu path, Contract).  One process per function."""
    import multiprocessing as mp
    tasks, results = [], []
    for tu_path, c in contracts:
        try:
            tu = get_tu(tu_path, c.filters)
        except FrontEndError as e:
            results.append({'function': c.name(), 'qname': c.qname, 'where': tu_path, 'obligations': [], 'error': 'front end: %s' % e, 'witnesses': [], 'assumptions': [], 'inlined': [], 'models': []})
            continue
        fns = tu.find(c.qname, c.pick)
        if not fns:
            results.append({'function': c.name(), 'qname': c.qname, 'where': tu_path, 'obligations': [], 'error': 'function not found', 'witnesses': [], 'assumptions': [], 'inlined': [], 'models': []})
        for f in fns:
            tasks.append((c, tu, f))
    ctx = mp.get_context('fork')
    if os.environ.get('CXXVC_SERIAL') or len(tasks) == 1:
        return results + [run_contract(*t) for t in tasks]
    running = []
    out = {}
    todo = list(enumerate(tasks))

    def start(i, t):
        rd, wr = ctx.Pipe(False)

        def work():
            import sys
            sys.setrecursionlimit(20000)
            try:
                wr.send(run_contract(*t))
            except Exception as e:
                wr.send({'function': t[0].name(), 'qname': t[0].qname, 'where': '', 'obligations': [], 'error': 'internal: %r' % e, 'witnesses': [], 'assumptions': [], 'inlined': [], 'models': []})
            wr.close()
        p = ctx.Process(target=work)
        p.start()
        wr.close()
        running.append((i, t, p, rd))
    while todo or running:
        while todo and len(running) < jobs:
            start(*todo.pop(0))
        import multiprocessing.connection as mc
        ready = mc.wait([r[3] for r in running], timeout=1.0)
        for r in list(running):
            if r[3] in ready:
                try:
                    out[r[0]] = r[3].recv()
                except EOFError:
                    out[r[0]] = {'function': r[1][0].name(), 'qname': r[1][0].qname, 'where': '', 'obligations': [], 'error': 'verifier process ended', 'witnesses': [], 'assumptions': [], 'inlined': [], 'models': []}
                r[2].join()
                running.remove(r)
    return results + [out[i] for i in sorted(out)]
