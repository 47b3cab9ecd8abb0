"""P09: MPEG audio frame headers decode to the standard's values."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M

TU = REPO + '/scribbu/mp3.cc'
CLS = 'scribbu::mp3_audio_frame'
# ISO/IEC 11172-3 and 13818-3, Layer III; kbit/s by index 1..14, Hz by index 0..2
KBPS = {3: [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320],
        2: [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160]}
KBPS[0] = KBPS[2]
HZ = {3: [44100, 48000, 32000], 2: [22050, 24000, 16000], 0: [11025, 12000, 8000]}
SAMPLES = {3: 1152, 2: 576, 0: 576}
NAMES = {3: 'MPEG 1', 2: 'MPEG 2', 0: 'MPEG 2.5'}


class Frame(Contract):
    qname = CLS + '::mp3_audio_frame'
    filters = ('scribbu', 'anonymous')

    def __init__(self, given, v=None, i=None, f=None):
        self.given = given                   # the header has been read already
        self.v, self.i, self.f = v, i, f     # version bits, bit rate and sampling rate index; None: a header to refuse
        self.expect_return = v is not None
        if v is not None:
            self.kbps, self.hz, self.n = KBPS[v][i - 1], HZ[v][f], SAMPLES[v]
        self.label = 'mp3_audio_frame(%sistream), %s' % ('header, ' if given else '', 'headers to refuse' if v is None else
                                                         '%s, %d kbit/s, %d Hz' % (NAMES[v], self.kbps, self.hz))

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        return len(ps) == (3 if self.given else 2) and 'bool' in ps[-1]

    def pre(self, eng, st):
        A = eng.A
        s = M.new_istream(eng, st, 'is')
        pos = s.f['pos']
        h = [z3.BitVec('hdr%d' % i, 8) for i in range(4)]
        pad = z3.BitVec('padding', 1)
        start = pos - A.const(4) if self.given else pos
        size = s.f['data'].len
        if self.v is None:
            ok = z3.And(h[0] == 0xff, z3.Extract(7, 5, h[1]) == 7, z3.Extract(4, 3, h[1]) != 1, z3.Extract(2, 1, h[1]) == 1,
                        z3.Extract(7, 4, h[2]) != 0, z3.Extract(7, 4, h[2]) != 15, z3.Extract(3, 2, h[2]) != 3)
            # its four bytes and a checksum are there
            st.assume(z3.And(z3.Not(ok), start + A.const(6) <= size))
            flen = None
        else:
            # exactly the acceptable headers with these indices; the other bits are free
            h[0] = z3.BitVecVal(0xff, 8)
            h[1] = z3.Concat(z3.BitVecVal(7, 3), z3.BitVecVal(self.v, 2), z3.BitVecVal(1, 2), z3.BitVec('no_crc', 1))
            h[2] = z3.Concat(z3.BitVecVal(self.i, 4), z3.BitVecVal(self.f, 2), pad, z3.BitVec('private', 1))
            flen = A.const(self.n * self.kbps * 1000 // 8 // self.hz) + z3.ZeroExt(63, pad)
            # the stream is long enough to hold the frame
            st.assume(start + flen <= size)
        if not self.given:
            d = s.f['data']
            sel = lambda j: z3.If(j == pos, h[0], z3.If(j == pos + A.const(1), h[1], z3.If(j == pos + A.const(2), h[2], z3.If(j == pos + A.const(3), h[3], d.get(A, j)))))
            s = type(s)(s.cls, {**s.f, 'data': Seq(sel, d.len, d.ew, d.kind)})
        lv = st.alloc(s, 'is')
        this = st.alloc(eng.default_struct(st, eng.record(CLS), 'frame'), 'frame')
        args = [lv, z3.BoolVal(False)]
        if self.given:
            arr = st.alloc(seq_const(A, h), 'hdr')
            args = [Ptr(arr, A.const(0))] + args
        return this, args, {'frame': this, 'is': lv, 'h': h, 'flen': flen, 'start': start, 'A': A}

    def get(self, eng, st, name, ctx):
        (f,) = eng.tu.find(CLS + '::' + name)
        ((s, v),) = list(eng.call_fn(f, ctx['frame'], [], st.clone(), f))
        return eng.rv(s, v)

    def post(self, eng, st, out, ctx):
        if out[0] == 'throw':
            return [('refused only for the listed reasons', z3.BoolVal(self.v is None)),
                    ('refused with the frame error', z3.BoolVal(out[1].ty == CLS + '::error'))]
        if self.v is None:
            return [('refused for each of the listed reasons', z3.BoolVal(False))]
        s = eng.load(st, ctx['is'])
        num, den = [self.get(eng, st, 'duration', ctx).f[k] for k in ('0', '1')]
        return [('stream usable', s.f['st'] == 0),
                ('bit rate', self.get(eng, st, 'bps', ctx) == self.kbps * 1000),
                ('sampling rate', z3.And(self.get(eng, st, 'sample_rate_hz', ctx) == self.hz, den == self.hz)),
                ('samples per frame', num == self.n),
                ('frame length', self.get(eng, st, 'size', ctx) == ctx['flen']),
                ('stream at the end of the frame', s.f['pos'] == ctx['start'] + ctx['flen'])]

    def witness(self, ev, ctx):
        return bytes([2 if self.given else 1] + [ev(x) & 255 for x in ctx['h']]).hex()


CONTRACTS = [(TU, Frame(g, v, i, f)) for g in (True, False) for v in (3, 2, 0) for i in range(1, 15) for f in range(3)] + [(TU, Frame(g)) for g in (True, False)]
ASSUMPTIONS = ['the file-scope tables of bit rates and sampling rates keep their initial values (no function in mp3.cc writes them)',
               'the VBR tag lookup (second argument true) is not part of this property']
