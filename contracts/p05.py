"""P05: an ID3v1 tag read and written back is the same bytes."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M

TU = REPO + '/scribbu/id3v1.cc'
CLS = 'scribbu::id3v1_tag'


class RoundTrip(Contract):
    qname = CLS + '::id3v1_tag'

    def __init__(self, size, flagged, short=False):
        self.size = size                    # 128, 355 or None: any other number of bytes left
        self.short = short                  # fewer bytes left than asked for
        self.flagged = flagged              # constructor with the `enhanced' argument
        self.expect_return = size is not None and not short
        self.label = 'id3v1_tag(istream%s), %s bytes, then write' % (', enhanced' if flagged else '', ('fewer than %d' % size if short else size) or 'other than 128 or 355')

    def pick(self, f):
        ps = [c['type']['qualType'] for c in f['inner'] if c.get('kind') == 'ParmVarDecl']
        if not ps or not ps[0].replace('std::', '').startswith('istream'):
            return False
        return len(ps) == (2 if self.flagged else 1)

    def pre(self, eng, st):
        A = eng.A
        s = M.new_istream(eng, st, 'is')
        if self.size is None:
            left = s.f['data'].len - s.f['pos']
            st.assume(z3.And(left != A.const(128), left != A.const(355)))
        else:
            # the kind is given: any number of bytes may follow
            end = s.f['pos'] + A.const(self.size)
            st.assume(s.f['data'].len < end if self.short else end <= s.f['data'].len if self.flagged else s.f['data'].len == end)
        lv = st.alloc(s, 'is')
        this = st.alloc(eng.default_struct(st, eng.record(CLS), 'tag'), 'tag')
        args = [lv] + ([z3.BoolVal(self.size == 355)] if self.flagged else [])
        d, pos = s.f['data'], s.f['pos']
        blk = [d.get(A, z3.simplify(pos + A.const(i))) for i in range(0 if self.short else self.size or 0)]
        return this, args, {'tag': this, 'is': lv, 'is0': s, 'blk': blk, 'A': A, 'eng': eng}

    def markers(self, b):
        o = 0
        m = []
        if self.size == 355:
            m += [b[i] == ord(c) for i, c in enumerate('TAG+')]
            o = 227
        m += [b[o + i] == ord(c) for i, c in enumerate('TAG')]
        return z3.And(*m)

    def eq(self, eng, seq, bs):
        A = eng.A
        return z3.And(seq.len == A.const(len(bs)), *[seq.get(A, A.const(i)) == x for i, x in enumerate(bs)])

    def post(self, eng, st, out, ctx):
        A, b = eng.A, ctx['blk']
        s0, s = ctx['is0'], eng.load(st, ctx['is'])
        G0 = [('exception mask is the caller\'s', s.f['exc'] == s0.f['exc']), ('stream usable', s.f['st'] == 0)]
        if out[0] == 'throw':
            G0 += [('refused with the error for an invalid tag', z3.BoolVal('invalid_tag' in out[1].ty)),
                   ('read position put back', s.f['pos'] == s0.f['pos'])]
        if self.size is None or self.short:
            return [('any other size is refused', z3.BoolVal(out[0] == 'throw'))] + G0
        ok = self.markers(b)
        if out[0] == 'throw':
            return [('refused only without the tag markers', z3.Not(ok))] + G0
        t = eng.load(st, ctx['tag']).f
        o = 227 if self.size == 355 else 0
        x = b[4:] if self.size == 355 else []
        v11 = z3.And(b[o + 125] == 0, b[o + 126] != 0)
        G = G0 + [('refused without the tag markers', ok), ('read position after the tag', s.f['pos'] == s0.f['pos'] + A.const(self.size)),
             ('kind of tag', t['extended_'] == z3.BoolVal(self.size == 355)),
             ('title', self.eq(eng, t['title_'], b[o + 3:o + 33] + x[0:60])),
             ('artist', self.eq(eng, t['artist_'], b[o + 33:o + 63] + x[60:120])),
             ('album', self.eq(eng, t['album_'], b[o + 63:o + 93] + x[120:180])),
             ('year', self.eq(eng, t['year_'], b[o + 93:o + 97])),
             ('revision', t['v1_1_'] == v11),
             ('comment', z3.If(v11, self.eq(eng, t['comment_'], b[o + 97:o + 125]), self.eq(eng, t['comment_'], b[o + 97:o + 127]))),
             ('track number', z3.Implies(v11, t['track_number_'] == b[o + 126])),
             ('genre', t['genre_'] == b[o + 127])]
        if self.size == 355:
            G += [('speed', t['speed_'] == x[180]), ('enhanced genre', self.eq(eng, t['ext_genre_'], x[181:211])),
                  ('start time', self.eq(eng, t['start_time_'], x[211:217])), ('end time', self.eq(eng, t['end_time_'], x[217:223]))]
        res = [(n, g, st) for n, g in G]
        # the bytes written from what was read
        (w,) = eng.tu.find(CLS + '::write')
        s2 = st.clone()
        os = s2.alloc(M.new_ostream(eng, s2), 'os')
        for s3, v in eng.call_fn(w, ctx['tag'], [os], s2, w):
            if isinstance(v, Throw):
                res.append(('write does not throw', z3.BoolVal(False), s3))
                continue
            o_ = eng.load(s3, os).f['out']
            res.append(('as many bytes written as read', o_.len == A.const(self.size), s3))
            res.append(('bytes written are the bytes read', self.eq(eng, o_, b), s3))
        return res

    def witness(self, ev, ctx):
        if self.short:
            n = ev(ctx['is0'].f['data'].len) - ev(ctx['is0'].f['pos'])
            return (bytes([2, self.size == 355]) + bytes(n)).hex()
        if self.size is None:
            n = min(ev(ctx['is0'].f['data'].len) - ev(ctx['is0'].f['pos']), 2000)
            return (bytes([1, 0]) + bytes(n)).hex()
        return (bytes([2 if self.flagged else 1, 0]) + bytes(ev(x) & 255 for x in ctx['blk'])).hex()


CONTRACTS = [(TU, RoundTrip(n, f)) for f in (False, True) for n in (128, 355)] + [(TU, RoundTrip(None, False))] + \
    [(TU, RoundTrip(n, True, True)) for n in (128, 355)]
