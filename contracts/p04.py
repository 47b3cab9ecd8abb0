"""P04: location of an ID3v1 tag and the end of the audio data."""
import z3
from cxxvc.cast import REPO
from cxxvc.verify import Contract
from cxxvc.vals import *
from cxxvc import models as M

SEARCH_S = 5


def text_at(A, d, off, txt):
    return z3.And(*[d.get(A, z3.simplify(off + A.const(i))) == ord(c) for i, c in enumerate(txt)])


def tag_spec(A, d):
    n = d.len
    ext = z3.And(A.le(A.const(355), n), text_at(A, d, n - A.const(355), 'TAG+'))
    std = z3.And(z3.Not(ext), A.le(A.const(128), n), text_at(A, d, n - A.const(128), 'TAG'))
    start = z3.If(ext, n - A.const(355), z3.If(std, n - A.const(128), n))
    return ext, std, start


def file_witness(ev, ctx, fn):
    """content near the end of the stream: the position is moved by whole bytes from the front"""
    A, s0 = ctx['A'], ctx['is0']
    d = s0.f['data']
    size, pos = ev(d.len), ev(s0.f['pos'])
    n = min(size, 400)
    drop = size - n
    p = max(0, pos - drop)
    bs = [ev(d.get(A, A.const(drop + i))) & 255 for i in range(n)]
    return (bytes([fn, ev(s0.f['exc'])]) + p.to_bytes(2, 'little') + bytes(bs)).hex()


class Query(Contract):
    qname = 'scribbu::ends_in_id3v1'
    which = 1

    def pre(self, eng, st):
        s = M.new_istream(eng, st, 'is')
        lv = st.alloc(s, 'is')
        return None, [lv], {'is': lv, 'is0': s, 'A': eng.A}

    def post(self, eng, st, out, ctx):
        A = eng.A
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        s0, s = ctx['is0'], eng.load(st, ctx['is'])
        I = eng.rv(st, out[1])
        d = s0.f['data']
        ext, std, start = tag_spec(A, d)
        ty = I.f['type_']
        e = eng.tu.enums['scribbu::id3_v1_tag_type']
        return [('enhanced tag reported exactly when there is one', (ty == e['v_1_extended']) == ext),
                ('standard tag reported exactly when there is one', (ty == e['v_1']) == std),
                ('no tag reported otherwise', (ty == e['none']) == z3.Not(z3.Or(ext, std))),
                ('reported start is the start of the tag', I.f['start_'] == start),
                ('reported end is the end of the file', I.f['end_'] == d.len),
                ('read position restored', s.f['pos'] == s0.f['pos']),
                ('stream state as found', s.f['st'] == s0.f['st']),
                ('exception mask is the caller\'s', s.f['exc'] == s0.f['exc'])]

    def witness(self, ev, ctx):
        return file_witness(ev, ctx, self.which)


class Boundary(Query):
    qname = 'scribbu::find_id3v1_tag'
    which = 2

    def post(self, eng, st, out, ctx):
        A = eng.A
        if out[0] == 'throw':
            return [('does not throw', z3.BoolVal(False))]
        s0, s = ctx['is0'], eng.load(st, ctx['is'])
        R = eng.rv(st, out[1])
        d = s0.f['data']
        ext, std, start = tag_spec(A, d)
        return [('first boundary is the read position on entry', R.f['0'] == s0.f['pos']),
                ('second boundary is the tag start or the end of the file', R.f['1'] == start),
                ('stream usable', s.f['st'] == 0),
                ('exception mask is the caller\'s', s.f['exc'] == s0.f['exc'])]


CONTRACTS = [(REPO + '/scribbu/id3v1.cc', Query()), (REPO + '/scribbu/scribbu.cc', Boundary())]
