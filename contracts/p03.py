"""P03: detection of an ID3v2 header at the read position."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M

TU = REPO + '/scribbu/id3v2.cc'


def header_spec(A, data, pos, size):
    """the ten bytes at pos exist and are a valid header"""
    b = [data.get(A, z3.simplify(pos + A.const(i))) for i in range(10)]
    ok = z3.And(A.le(pos + A.const(10), size), b[0] == 0x49, b[1] == 0x44, b[2] == 0x33, b[3] != 0xff, b[4] != 0xff,
                *[z3.ULT(x, 0x80) for x in b[6:10]])
    n = z3.BitVecVal(0, 64)
    for i, x in enumerate(b[6:10]):
        n = n + z3.ZeroExt(56, x) * z3.BitVecVal(128 ** (3 - i), 64)
    return ok, b, n


def stream_input(ev, ctx, cap=4096):
    """content of a stream in a counterexample, shortened to what matters"""
    s0, size = ctx['is0'], ev(ctx['is0'].f['data'].len)
    return size


class Probe(Contract):
    qname = 'scribbu::looking_at_id3v2'

    def pre(self, eng, st):
        s = M.new_istream(eng, st, 'is')
        lv = st.alloc(s, 'is')
        r = z3.Bool('restore')
        return None, [lv, r], {'is': lv, 'is0': s, 'restore': r, 'A': eng.A}

    def post(self, eng, st, out, ctx):
        A = eng.A
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        s0, s = ctx['is0'], eng.load(st, ctx['is'])
        H = eng.rv(st, out[1])
        d, pos = s0.f['data'], s0.f['pos']
        ok, b, n = header_spec(A, d, pos, d.len)
        f = H.f
        restored = z3.Or(z3.Not(ok), ctx['restore'])
        return [('present exactly when a valid header is there', f['present_'] == ok),
                ('version, revision and flags are those of the header',
                 z3.Implies(ok, z3.And(f['version_'] == b[3], f['revision_'] == b[4], f['flags_'] == b[5]))),
                ('size is that of the header', z3.Implies(ok, eng.conv(f['size_'], 'unsigned int', 'unsigned long') == n)),
                ('read position restored', z3.Implies(restored, s.f['pos'] == pos)),
                ('read position after the header otherwise', z3.Implies(z3.Not(restored), s.f['pos'] == pos + A.const(10))),
                ('stream usable', s.f['st'] == 0),
                ('exception mask is the caller\'s', s.f['exc'] == s0.f['exc'])]

    def witness(self, ev, ctx):
        A = ctx['A']
        s0 = ctx['is0']
        size, pos = ev(s0.f['data'].len), ev(s0.f['pos'])
        # keep at most 16 bytes after the position; move the position near the start
        p = min(pos, 8)
        avail = min(size - pos, 16)
        bs = [ev(s0.f['data'].get(A, A.const(pos - p + i))) & 255 for i in range(p + avail)]
        return bytes([1 if ev(ctx['restore']) else 0, ev(s0.f['exc']), p] + bs).hex()


CONTRACTS = [(TU, Probe())]
