"""P13: the track checksum covers exactly the audio bytes."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc.spec import TransLoop
from contracts import p04

TU = REPO + '/scribbu/scribbu.cc'


class Digest(Contract):
    """the digest functions keep account of what they are given: which byte of the range comes next"""
    mode = 'int'
    expect_return = True

    def digest(self, eng, st, s, start):
        """ghost state: number of bytes hashed so far, initialised, finished"""
        self.data, self.start = s.f['data'], start
        self.ghost = st.alloc(Struct('digest', {'fed': z3.IntVal(0), 'inits': z3.IntVal(0), 'done': z3.IntVal(0)}), 'digest')
        self.md5 = z3.Function('md5', z3.IntSort(), z3.BitVecSort(8))
        for n in ('EVP_MD_CTX_new', 'EVP_MD_CTX_create', 'EVP_md5'):
            eng.abstract_methods[n] = lambda eng, st, t, vs, n: iter([(st, Ptr(self.ghost, z3.IntVal(0), single=True))])
        for n in ('EVP_MD_CTX_free', 'EVP_MD_CTX_destroy'):
            eng.abstract_methods[n] = lambda eng, st, t, vs, n: iter([(st, None)])
        eng.abstract_methods['EVP_DigestInit_ex'] = self.init
        eng.abstract_methods['EVP_DigestUpdate'] = self.update
        eng.abstract_methods['EVP_DigestFinal_ex'] = self.final

    def g(self, eng, st):
        return eng.load(st, self.ghost)

    def init(self, eng, st, t, vs, n):
        o = self.g(eng, st)
        eng.storev(st, self.ghost, o.set('fed', z3.IntVal(0)).set('inits', o.f['inits'] + 1))
        yield st, z3.BitVecVal(1, 32)

    def update(self, eng, st, t, vs, n):
        A, o = eng.A, self.g(eng, st)
        p, k = eng.rv(st, vs[1]), eng.rv(st, vs[2])
        b = M.mem_read(eng, st, p, k, n, 'hashed bytes within the buffer')
        fed = o.f['fed']
        st.add_T(fed)
        eng.oblige(st, 'the digest has been set up', o.f['inits'] >= 1, n, 'postcondition')
        eng.oblige(st, 'the bytes hashed are the next bytes of the track',
                   FA(lambda j: z3.Implies(z3.And(j >= 0, j < k), b.get(A, j) == self.data.get(A, self.start + fed + j))), n, 'postcondition')
        eng.storev(st, self.ghost, o.set('fed', fed + k))
        yield st, z3.BitVecVal(1, 32)

    def final(self, eng, st, t, vs, n):
        o = self.g(eng, st)
        M.mem_write(eng, st, eng.rv(st, vs[1]), Seq(lambda j: self.md5(j), z3.IntVal(16), 8, 'array'), z3.IntVal(16), n, 'room for the digest')
        eng.storev(st, self.ghost, o.set('done', o.f['done'] + 1))
        yield st, z3.BitVecVal(1, 32)

    def stream(self, eng, st):
        s = M.new_istream(eng, st, 'is')
        lv = st.alloc(s, 'is')
        self.digest(eng, st, s, s.f['pos'])
        return s, lv

    def loops(self, eng, nd, st, fn):
        def templates(eng, inst, entry, head, modified, ps, vs):
            def pos(st):
                return eng.load(st, self.is_).f['pos']

            def fed(st):
                return self.g(eng, st).f['fed']

            def add(name, f):
                c = (name, lambda st, f=f: f(st), 0)
                inst.cands.append(c)
                inst.phases[0].append(c)
            e = self.end
            add('position is the next byte to hash', lambda st: pos(st) == self.start + fed(st))
            add('hashed at least nothing', lambda st: fed(st) >= 0)
            add('hashed at most the range', lambda st: self.start + fed(st) <= e)
            add('stream good', lambda st: eng.load(st, self.is_).f['st'] == 0)
            add('set up', lambda st: self.g(eng, st).f['inits'] >= 1)
            add('not finished', lambda st: self.g(eng, st).f['done'] == 0)
            for v in vs:
                add('%s == bytes left' % v.name, lambda st, v=v: v.fn(st) == e - self.start - fed(st))
                add('%s == bytes hashed' % v.name, lambda st, v=v: v.fn(st) == fed(st))
                add('%s == next position' % v.name, lambda st, v=v: v.fn(st) == self.start + fed(st))
        return TransLoop(n=self.end, extra=[templates])

    def small(self, ctx):
        n = ctx['is0'].f['data'].len
        return [n <= 400, n <= 1000]

    which = 3

    def witness(self, ev, ctx):
        A, s0 = ctx['A'], ctx['is0']
        d, n, pos = s0.f['data'], ev(s0.f['data'].len), ev(s0.f['pos'])
        if n is None or n > (1 << 24) or pos > n:
            return None
        end = max(0, ev(self.end) - pos)
        k = min(n, 2000)
        bs = bytes((ev(d.get(A, z3.IntVal(n - k + i))) or 0) & 255 for i in range(k))
        return (bytes([self.which, ev(s0.f['exc'])]) + pos.to_bytes(3, 'little') + min(end, (1 << 25) - 1).to_bytes(4, 'little') + (n - k).to_bytes(4, 'little') + bs).hex()

    def common(self, eng, st, arr):
        g = self.g(eng, st)
        return [('every byte of the range hashed once', g.f['fed'] == self.end - self.start),
                ('one digest', z3.And(g.f['inits'] == 1, g.f['done'] == 1)),
                ('the result is the digest', z3.And(*[arr.get(eng.A, z3.IntVal(i)) == self.md5(z3.IntVal(i)) for i in range(16)]))]


class Compute(Digest):
    qname = 'scribbu::compute_track_md5'

    def __init__(self, hint):
        self.hint, self.which = hint, 1 if hint else 2
        self.label = self.qname + (' (end given)' if hint else ' (end not given)')

    def pre(self, eng, st):
        s, self.is_ = self.stream(eng, st)
        pos, n = s.f['pos'], s.f['data'].len
        if self.hint:
            end = h = z3.Int('hint')
            st.assume(z3.And(h >= pos, h < (1 << 62)))
        else:
            h = z3.IntVal(-1)
            end = p04.tag_spec(eng.A, s.f['data'])[2]
            st.assume(pos <= end)
        self.end = end
        return None, [self.is_, h], {'is0': s, 'A': eng.A, 'hint': h}

    def post(self, eng, st, out, ctx):
        s0, s = ctx['is0'], eng.load(st, self.is_)
        if out[0] == 'throw':
            return [('refused only if the end given is past the end of the file', self.end > s0.f['data'].len)]
        return self.common(eng, st, eng.rv(st, out[1])) + [
            ('read position at the end of the range', s.f['pos'] == self.end), ('stream usable', s.f['st'] == 0),
            ('exception mask is the caller\'s', s.f['exc'] == s0.f['exc'])]


class Track(Digest):
    qname = 'scribbu::track_data::track_data'
    label = qname + '(istream)'

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) == 1 and 'istream' in ps[0]

    def pre(self, eng, st):
        s, self.is_ = self.stream(eng, st)
        self.end = p04.tag_spec(eng.A, s.f['data'])[2]
        st.assume(s.f['pos'] <= self.end)
        eng.abstract_methods['scribbu::get_mp3_duration'] = self.duration
        this = self.this = st.alloc(eng.default_struct(st, eng.record('scribbu::track_data'), 'track'), 'track')
        return this, [self.is_], {'is0': s, 'A': eng.A}

    def duration(self, eng, st, t, vs, n):
        """any effect on position, state and mask; may fail"""
        s = eng.load(st, self.is_)
        p, e, x = z3.Int(fresh_name('pos')), z3.BitVec(fresh_name('state'), 32), z3.BitVec(fresh_name('mask'), 32)
        st.assume(z3.And(p >= 0, z3.ULE(e, 7), z3.ULE(x, 7)))
        M.sset(eng, st, self.is_, pos=p, st=e, exc=x)
        yield st.clone(), Throw('std::exception')
        yield st, Opaque('duration', None, 'double')

    def post(self, eng, st, out, ctx):
        s0, s = ctx['is0'], eng.load(st, self.is_)
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        t = eng.load(st, self.this)
        return self.common(eng, st, t.f['md5_']) + [
            ('size is the length of the range', t.f['size_bytes_'] == self.end - self.start),
            ('read position at the end of the range', s.f['pos'] == self.end), ('stream usable', s.f['st'] == 0),
            ('exception mask is the caller\'s', s.f['exc'] == s0.f['exc'])]


CONTRACTS = [(TU, Compute(True)), (TU, Compute(False)), (TU, Track())] + p04.CONTRACTS[1:]
ASSUMPTIONS = ['the digest library computes MD5 of the bytes it is given, in order, and does not fail',
               'the duration computation touches nothing but the stream, and fails only with standard exceptions',
               'the starting position is not past the start of the ID3v1 tag']
