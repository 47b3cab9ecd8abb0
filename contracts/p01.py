"""P01: ID3v2 size fields."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *

TU = REPO + '/scribbu/id3v2.cc'


class Decode(Contract):
    """value of an n-byte big-endian field, from the ID3v2 specification"""

    def __init__(self, qname, n, syncsafe):
        self.qname, self.n, self.syncsafe = qname, n, syncsafe
        self.label = '%s/%d' % (qname, n)

    def pick(self, f):
        return len([c for c in f['inner'] if c.get('kind') == 'ParmVarDecl']) == self.n

    def pre(self, eng, st):
        b = [z3.BitVec('b%d' % i, 8) for i in range(self.n)]
        return None, list(b), b

    def spec(self, b):
        # a sum, not a transcription of the shifts
        tot = z3.BitVecVal(0, 64)
        for i, x in enumerate(b):
            m = 0x7f if self.syncsafe else 0xff
            if self.syncsafe and self.n == 5 and i == 0:
                m = 0x0f           # 32-bit value: four significant bits
            w = 128 if self.syncsafe else 256
            tot = tot + z3.ZeroExt(56, x & m) * z3.BitVecVal(w ** (self.n - 1 - i), 64)
        return tot

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        v = eng.rv(st, out[1])
        if v.size() < 64:
            v = z3.ZeroExt(64 - v.size(), v)
        return [('decoded value is the specified one', v == self.spec(ctx))]

    def witness(self, ev, ctx):
        return bytes([1 if self.syncsafe else 2, self.n] + [ev(x) for x in ctx]).hex()


class Encode(Contract):
    qname = 'scribbu::detail::sync_safe_from_unsigned'

    def pre(self, eng, st):
        x = z3.BitVec('x', 64)
        buf = st.alloc(seq_sym(eng.A, 'buf', eng.A.const(4), 8, 'array'), 'buf')
        return None, [x, Ptr(buf, eng.A.const(0))], (x, buf)

    def post(self, eng, st, out, ctx):
        x, buf = ctx
        big = z3.UGT(x, 0xfffffff)
        if out[0] == 'throw':
            return [('refuses only sizes of 2^28 and more', big)]
        b = eng.load(st, buf)
        bs = [b.get(eng.A, eng.A.const(i)) for i in range(4)]
        tot = z3.BitVecVal(0, 64)
        for i, y in enumerate(bs):
            tot = tot + z3.ZeroExt(56, y) * z3.BitVecVal(128 ** (3 - i), 64)
        return [('refuses every size of 2^28 and more', z3.Not(big)),
                ('every byte is sync-safe', z3.And(*[z3.ULT(y, 0x80) for y in bs])),
                ('bytes denote the size', z3.Implies(z3.Not(big), tot == x))]

    def witness(self, ev, ctx):
        return (bytes([3]) + ev(ctx[0]).to_bytes(8, 'little')).hex()


D = 'scribbu::detail::'
CONTRACTS = [(TU, Decode(D + 'unsigned_from_sync_safe', n, True)) for n in (3, 4, 5)] + \
            [(TU, Decode(D + 'uint32_from_sync_safe', n, True)) for n in (4, 5)] + \
            [(TU, Decode(D + 'unsigned_from_non_sync_safe', n, False)) for n in (3, 4)] + \
            [(TU, Decode(D + 'uint32_from_non_sync_safe', n, False)) for n in (3, 4)] + \
            [(TU, Encode())]
