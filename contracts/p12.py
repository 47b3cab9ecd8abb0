"""P12: splitting a file loses and duplicates no byte."""
import os
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M
from cxxvc.spec import TransLoop, prove
from contracts import p03, p04

DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'P12.cc')
I = z3.IntSort()


class Split(Contract):
    """Ghost state: how many bytes of the input have been written to pieces so far, where the piece being written has to end,
    how many tags have been split off, and which piece is next."""
    qname = '(anonymous namespace)::split_file'
    filters = ('scribbu', 'anonymous')
    mode = 'int'
    expect_return = True

    def pre(self, eng, st):
        s = M.new_istream(eng, st, 'is')
        s.f['pos'], s.f['exc'] = z3.IntVal(0), z3.BitVecVal(0, 32)
        s.cls = 'std::ifstream'
        self.s0, self.data, self.len = s, s.f['data'], s.f['data'].len
        # what looking_at_id3v2 finds at a position (contract of that function, below)
        self.has, self.size = z3.Function('tag_at', I, z3.BoolSort()), z3.Function('tag_size', I, z3.BitVecSort(32))
        # (10 + size cannot overflow: lemma below)
        self.tsize = lambda j: eng.conv(self.size(j), 'unsigned int', 'unsigned long')
        st.assume(FA(lambda j: z3.And(z3.ULT(self.size(j), 1 << 28), self.tsize(j) >= 0, self.tsize(j) < (1 << 28), z3.Implies(self.has(j), j + 10 <= self.len),
                                      eng.conv(10 + self.size(j), 'unsigned int', 'unsigned long') == 10 + self.tsize(j)), 'tag sizes'))
        self.start = z3.Int('id3v1_start')
        st.assume(z3.And(self.start >= 0, self.start <= self.len))
        ln = z3.Int('suffix_size')
        st.assume(z3.And(ln >= 0, ln < (1 << 30)))
        self.suffix = seq_sym(eng.A, 'suffix', ln, 8, 'string')
        self.ghost = st.alloc(Struct('ghost', {'joined': z3.IntVal(0), 'due': z3.IntVal(0), 'tags': z3.IntVal(0), 'stage': z3.IntVal(0)}), 'ghost')
        st.add_T(z3.IntVal(0))
        self.is_ = None
        am = eng.abstract_methods
        am['open_ifstream'] = self.open
        am['looking_at_id3v2'] = self.probe
        am['ends_in_id3v1'] = self.trailer
        eng.model_overrides['construct:stream'] = self.create
        eng.on_emit = self.wrote
        self.eng = eng
        name = seq_sym(eng.A, 'name', z3.Int('name_size'), 8, 'string')
        return None, [st.alloc(name, 'in'), st.alloc(self.suffix, 'suffix')], {'A': eng.A}

    def g(self, st):
        return self.eng.load(st, self.ghost).f

    def gset(self, st, **kw):
        o = self.eng.load(st, self.ghost)
        for k, v in kw.items():
            o = o.set(k, v)
        self.eng.storev(st, self.ghost, o)

    def open(self, eng, st, t, vs, n):
        yield st, self.s0

    def probe(self, eng, st, t, vs, n):
        s = eng.load(st, vs[0])
        self.is_ = vs[0]
        p = s.f['pos']
        for s1, good in eng.fork(st, s.f['st'] == 0):
            if not good:
                yield s1, Throw('std::ios_base::failure')
                continue
            s1.add_T(p)
            r = eng.default_struct(s1, eng.record('scribbu::id3v2_info'), 'info')
            r = r.set('present_', self.has(p)).set('size_', self.size(p))
            if len(vs) > 1 and isinstance(vs[1], (bool,)) or len(vs) > 1 and z3.is_expr(vs[1]):
                keep = eng.to_bool(eng.rv(s1, vs[1]))
                M.sset(eng, s1, vs[0], pos=z3.If(z3.And(self.has(p), z3.Not(keep)), p + 10, p))
            yield s1, r

    def trailer(self, eng, st, t, vs, n):
        s = eng.load(st, vs[0])
        for s1, good in eng.fork(st, s.f['st'] == 0):
            if not good:
                yield s1, Throw('std::ios_base::failure')
                continue
            r = eng.default_struct(s1, eng.record('scribbu::id3v1_info'), 'info')
            yield s1, r.set('start_', self.start).set('end_', self.len)

    def text(self, *parts):
        A = self.eng.A
        out = seq_const(A, [], 'string')
        for p in parts:
            out = seq_concat(A, out, seq_const(A, list(p.encode()), 'string') if isinstance(p, str) else p)
        return out

    def create(self, eng, n, t, st, args):
        """a piece is started"""
        if 'ofstream' not in t:
            return None
        return self._create(eng, n, st, args)

    def _create(self, eng, n, st, args):
        A = eng.A
        for s1, vs in eng.evs(args, st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            path = eng.rv(s1, vs[0])
            g = self.g(s1)
            j, stage = g['joined'], g['stage']
            s1.add_T(j)
            eng.oblige(s1, 'a piece starts where the one before has to end', j == g['due'], n, 'postcondition')
            tag, track = z3.And(stage == 0, self.has(j)), z3.And(stage == 0, z3.Not(self.has(j)))
            for s2, isTag in eng.fork(s1, tag):
                for s3, isTrack in (eng.fork(s2, track) if not isTag else [(s2, False)]):
                    want = self.text('id3v2', M.decimal(A, g['tags']), self.suffix) if isTag else self.text('track' if isTrack else 'id3v1', self.suffix)
                    what = 'tag' if isTag else 'track' if isTrack else 'ID3v1 tag'
                    eng.oblige(s3, 'name of the %s piece' % what, path.len == want.len, n, 'postcondition')
                    eng.oblige(s3, 'name of the %s piece' % what,
                               FA(lambda k, path=path, want=want: z3.Implies(z3.And(k >= 0, k < want.len), path.get(A, k) == want.get(A, k))), n, 'postcondition')
                    if isTag:
                        self.gset(s3, due=j + 10 + self.tsize(j), tags=g['tags'] + 1)
                    elif isTrack:
                        self.gset(s3, due=self.start, stage=z3.IntVal(1))
                    else:
                        eng.oblige(s3, 'ID3v1 piece after the track, only if there is such a tag',
                                   z3.And(stage == 1, self.start < self.len), n, 'postcondition')
                        self.gset(s3, due=self.len, stage=z3.IntVal(2))
                    o = M.new_ostream(eng, s3)
                    o.cls = 'std::ofstream'
                    yield s3, o

    def wrote(self, st, lv, d):
        eng, A = self.eng, self.eng.A
        if eng.load(st, lv).cls != 'std::ofstream':
            return
        g = self.g(st)
        j = g['joined']
        st.add_T(j)
        eng.oblige(st, 'bytes written are the next bytes of the file', FA(lambda k: z3.Implies(z3.And(k >= 0, k < d.len), d.get(A, k) == self.data.get(A, j + k))),
                   None, 'postcondition')
        self.gset(st, joined=j + d.len)

    def loops(self, eng, nd, st, fn):
        def templates(eng, inst, entry, head, modified, ps, vs):
            def add(name, f):
                c = (name, lambda st, f=f: f(st), 0)
                inst.cands.append(c)
                inst.phases[0].append(c)

            def at(st):
                j = self.g(st)['joined']
                st.add_T(j)
                return j
            for cell in sorted(modified):
                v = entry.store.get(cell)
                if isinstance(v, Stream) and v.cls == 'std::ifstream':
                    add('position is the next byte to write', lambda st, c=cell: st.store[c].f['pos'] == at(st))
                    add('stream good', lambda st, c=cell: st.store[c].f['st'] == 0)
                if isinstance(v, Struct) and v.cls == 'scribbu::id3v2_info':
                    add('header information is that of the next byte', lambda st, c=cell: st.store[c].f['present_'] == self.has(at(st)))
                    add('size is that at the next byte', lambda st, c=cell: z3.Implies(self.has(at(st)), st.store[c].f['size_'] == self.size(at(st))))
            add('pieces complete', lambda st: at(st) == self.g(st)['due'])
            add('within the file', lambda st: z3.And(at(st) >= 0, at(st) <= self.len))
            add('tags only', lambda st: self.g(st)['stage'] == 0)
            e = self.g(entry)
            for k in ('due', 'tags', 'stage'):
                add('%s as before the loop' % k, lambda st, k=k: self.g(st)[k] == e[k])
            add('no more than the piece', lambda st: at(st) <= self.g(st)['due'])
            for v in vs:
                add('%s == tags' % v.name, lambda st, v=v: v.fn(st) == self.g(st)['tags'])
                add('%s == bytes to write' % v.name, lambda st, v=v: v.fn(st) == self.g(st)['due'] - at(st))
                add('%s == bytes written' % v.name, lambda st, v=v: v.fn(st) == at(st) - e['joined'])
        return TransLoop(n=self.len, extra=[templates])

    def post(self, eng, st, out, ctx):
        g = self.g(st)
        j = g['joined']
        st.add_T(j)
        if out[0] == 'throw':
            return [('refused only if a tag runs past the end of the file or into the ID3v1 tag', z3.Or(
                g['due'] > self.len, z3.And(self.has(j), j + 10 + self.tsize(j) > self.len), self.start < j))]
        return [('every byte of the file is in a piece', j == self.len), ('the last piece is complete', g['due'] == self.len),
                ('track piece written', g['stage'] >= 1), ('ID3v1 piece written if there is such a tag', (g['stage'] == 2) == (self.start < self.len))]


    def small(self, ctx):
        return [self.len <= 1000, self.len <= 4000]

    def witness(self, ev, ctx):
        n = ev(self.len)
        if n is None or n > 4000:
            return None
        d = bytearray(b'.' * n)
        p = 0
        while p + 10 <= n and ev(self.has(z3.IntVal(p))):
            z = ev(self.size(z3.IntVal(p)))
            d[p:p + 10] = b'ID3\3\0\0' + bytes([z >> 21 & 127, z >> 14 & 127, z >> 7 & 127, z & 127])
            p += 10 + z
        a = ev(self.start)
        if a < n:
            d += b'.' * max(0, 128 - (n - a))
            d[-128:-125] = b'TAG'
        return '00' + bytes(d).hex()


def lemmas():
    s = z3.BitVec('s', 32)
    return [prove('the size of a tag with its header fits', [z3.ULT(s, 1 << 28)], z3.ZeroExt(32, 10 + s) == 10 + z3.ZeroExt(32, s))]


CONTRACTS = [(DRV, Split())] + p03.CONTRACTS + p04.CONTRACTS[:1]
ASSUMPTIONS = ['the input file can be opened, the output files created and written; opening positions the stream at the start',
               'looking_at_id3v2 and ends_in_id3v1 behave as their contracts say (discharged by this check as well)',
               'decimal notations of different numbers differ']
