"""Models of the C++ standard library (libstdc++ semantics): the trusted base of the proofs."""
import re
import z3
from .cast import Unsupported, TU
from .vals import *
from . import engine as E

ENUMS = {'_S_badbit': 1, '_S_eofbit': 2, '_S_failbit': 4, '_S_goodbit': 0,
         '_S_beg': 0, '_S_cur': 1, '_S_end': 2}
BAD, EOFB, FAIL = 1, 2, 4
FAILURE = 'std::ios_base::failure'


# ---------------------------------------------------------------- types
def targs(t):
    """template arguments of the outermost template"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<':
            depth += 1
        if ch == '>':
            if depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def targ(t, i):
    a = targs(t)
    return a[i] if i < len(a) else ''


def class_kind(t):
    t = E.strip_type(t)
    if t.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')) or t in ('std::string', 'std::__cxx11::string', 'basic_string<char>'):
        return 'string'
    if re.match(r'^(std::)?vector<', t):
        return 'vector'
    if re.match(r'^(std::)?(array)<', t):
        return 'array'
    if re.match(r'^(std::|boost::)?optional<', t):
        return 'optional'
    if re.match(r'^(std::|boost::)?(shared_ptr|unique_ptr|scoped_ptr|shared_array)<', t):
        return 'smartptr'
    if t.startswith('std::fpos<') or t in ('std::streampos', 'fpos<__mbstate_t>', 'fpos<mbstate_t>'):
        return 'fpos'
    if re.match(r'^std::(__cxx11::)?(basic_stringstream|basic_ostringstream|basic_istringstream|stringstream|ostringstream|istringstream)\b', t) or \
       re.match(r'^(stringstream|ostringstream|istringstream|basic_stringstream)\b', t):
        return 'sstream'
    if re.match(r'^(std::)?pair<', t):
        return 'pair'
    if re.match(r'^(std::)?tuple<', t):
        return 'tuple'
    if re.match(r'^(std::)?(basic_istream|basic_ostream|istream|ostream|basic_ofstream|basic_ifstream|ofstream|ifstream)', t):
        return 'stream'
    if '__normal_iterator' in t and not t.startswith('scribbu::'):
        return 'iterator'
    if t.startswith('std::initializer_list<') or t.startswith('initializer_list<'):
        return 'initlist'
    if t.startswith('std::filesystem::') or t.startswith('std::allocator') or t.startswith('std::'):
        return 'other'
    return None


def c_string(v):
    """bytes of a C string literal as printed in the AST"""
    s = v
    i = s.index('"')
    s = s[i + 1:s.rindex('"')]
    out, i = [], 0
    esc = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
    while i < len(s):
        c = s[i]
        if c == '\\':
            c2 = s[i + 1]
            if c2 == 'x':
                m = re.match(r'[0-9a-fA-F]+', s[i + 2:])
                out.append(int(m.group(0), 16) & 255)
                i += 2 + len(m.group(0))
            elif c2 in '01234567':
                m = re.match(r'[0-7]{1,3}', s[i + 1:])
                out.append(int(m.group(0), 8) & 255)
                i += 1 + len(m.group(0))
            else:
                out.append(esc[c2])
                i += 2
        else:
            out += list(c.encode())
            i += 1
    return out


# ---------------------------------------------------------------- bytes in memory
def scalar_bytes(v):
    """little-endian bytes of a scalar"""
    if z3.is_bool(v):
        return [z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))]
    w = v.size()
    return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]


def mem_read(eng, st, p, n, node, what='source range within bounds'):
    """Seq of n bytes at p; n is an index term"""
    A = eng.A
    cn = A.is_const(n)
    if cn == 0:
        return seq_const(A, [], 'string')
    if p.lv is None:
        eng.oblige(st, 'null pointer read', n == A.const(0), node)
        raise Unsupported('null read')
    v = eng.load(st, p.lv, check=False)
    if p.single and z3.is_expr(v):
        if not z3.is_bv(v) and not z3.is_bool(v):
            raise Unsupported('bytes of a 64-bit scalar')
        bs = scalar_bytes(v)
        if cn is None:
            raise Unsupported('symbolic byte count of a scalar')
        o = A.is_const(p.off)
        eng.oblige(st, what, z3.BoolVal(o + cn <= len(bs)), node)
        return seq_const(A, bs[o:o + cn], 'string')
    if isinstance(v, Seq):
        if v.ew != 8:
            if cn is None or A.is_const(p.off) is None:
                raise Unsupported('bytes of a wide array')
            k = v.ew // 8
            bs = []
            for i in range(A.is_const(v.len)):
                bs += scalar_bytes(v.get(A, A.const(i)))
            o = A.is_const(p.off) * k
            eng.oblige(st, what, z3.BoolVal(o + cn <= len(bs)), node)
            return seq_const(A, bs[o:o + cn], 'string')
        hi = v.len + A.const(1) if v.kind == 'string' else v.len
        eng.oblige(st, what, z3.And(A.le(A.const(0), p.off), A.le(A.const(0), n), A.le(p.off + n, hi)), node)
        if cn is not None and cn <= 1024:
            return seq_const(A, [v.get(A, z3.simplify(p.off + A.const(i))) for i in range(cn)], 'string')
        return Seq(lambda j, v=v, o=p.off: v.get(A, z3.simplify(o + j)), n, 8, 'string')
    raise Unsupported('bytes of %r' % (v,))


def mem_write(eng, st, p, data, n, node, what='destination range within bounds'):
    """write the first n elements of Seq data at p"""
    A = eng.A
    cn = A.is_const(n)
    if cn == 0:
        return
    if p.lv is None:
        eng.oblige(st, 'null pointer write', n == A.const(0), node)
        raise Unsupported('null write')
    v = eng.load(st, p.lv, check=False)
    if p.single and z3.is_expr(v):
        if not z3.is_bv(v):
            raise Unsupported('bytes of a 64-bit scalar')
        bs = scalar_bytes(v)
        o = A.is_const(p.off)
        eng.oblige(st, what, A.le(n, A.const(len(bs) - o)), node)
        new = list(bs)
        for i in range(len(bs) - o):
            c = A.lt(A.const(i), n)
            new[o + i] = z3.If(c, data.get(A, A.const(i)), bs[o + i])
        eng.storev(st, p.lv, z3.simplify(z3.Concat(*reversed(new)) if len(new) > 1 else new[0]))
        return
    if not isinstance(v, Seq):
        raise Unsupported('write bytes to %r' % (v,))
    eng.oblige(st, what, z3.And(A.le(A.const(0), p.off), A.le(A.const(0), n), A.le(p.off + n, v.len)), node)
    co = A.is_const(p.off)
    if cn is not None and co is not None and cn <= 2048:
        o = dict(v.over)
        for i in range(cn):
            o[co + i] = data.get(A, A.const(i))
        nv = Seq(v.sel, v.len, v.ew, v.kind, o, v.signed, v.dim)
    elif cn is not None and cn <= 4:
        nv = v
        for i in range(cn):
            nv = nv.set(A, z3.simplify(p.off + A.const(i)), data.get(A, A.const(i)))
    elif A.is_const(v.len) is not None and A.is_const(v.len) <= 512 and co is not None:
        o = dict(v.over)
        for i in range(co, A.is_const(v.len)):
            o[i] = z3.If(A.lt(A.const(i - co), n), data.get(A, A.const(i - co)), v.get(A, A.const(i)))
        nv = Seq(v.sel, v.len, v.ew, v.kind, o, v.signed, v.dim)
    else:
        def sel(j, v=v, off=p.off, n=n, data=data):
            return z3.If(z3.And(A.le(off, j), A.lt(j, off + n)), data.get(A, z3.simplify(j - off)), v.get(A, j))
        nv = Seq(sel, v.len, v.ew, v.kind, None, v.signed, v.dim)
    eng.storev(st, p.lv, nv)


# ---------------------------------------------------------------- streams
def new_sstream(eng, st, data=None):
    A = eng.A
    return Stream('std::stringstream', {
        'data': data if data is not None else seq_const(A, [], 'string'), 'pos': A.const(0),
        'st': z3.BitVecVal(0, 32), 'exc': z3.BitVecVal(0, 32), 'gcount': A.const(0),
        'out': seq_const(A, [], 'string'), 'base': z3.BitVecVal(10, 8), 'width': z3.BitVecVal(0, 32),
        'fill': z3.BitVecVal(32, 8), 'beyond': z3.BoolVal(False)})


def new_istream(eng, st, name='is'):
    """an arbitrary readable stream: any content, any position within it, good state, any mask"""
    A = eng.A
    ln = z3.Const(name + '_size', A.sort)
    st.assume(z3.And(A.le(A.const(0), ln), A.lt(ln, A.const(1 << 40))))
    pos = z3.Const(name + '_pos', A.sort)
    st.assume(z3.And(A.le(A.const(0), pos), A.le(pos, ln)))
    s = new_sstream(eng, st, seq_sym(A, name + '_data', ln, 8, 'string'))
    s.cls = 'std::istream'
    s.f['pos'] = pos
    exc = z3.BitVec(name + '_exc', 32)
    st.assume(z3.ULE(exc, z3.BitVecVal(7, 32)))
    s.f['exc'] = exc
    s.f['beyond'] = z3.Bool(name + '_beyond_ok')
    return s


def new_ostream(eng, st, name='os'):
    s = new_sstream(eng, st)
    s.cls = 'std::ostream'
    return s


def sget(eng, st, lv):
    v = eng.load(st, lv)
    if not isinstance(v, Stream):
        raise Unsupported('stream operation on %r' % (v,))
    return v


def sset(eng, state, lv, **kw):
    s = sget(eng, state, lv)
    eng.storev(state, lv, Stream(s.cls, {**s.f, **kw}))


def throw_check(eng, st, lv):
    """after a state change: throws failure when a masked bit is set"""
    s = sget(eng, st, lv)
    for s1, t in eng.fork(st, (s.f['st'] & s.f['exc']) != 0):
        yield s1, (Throw(FAILURE) if t else None)


def s_clear(eng, st, lv, bits):
    sset(eng, st, lv, st=bits)
    return throw_check(eng, st, lv)


def s_setstate(eng, st, lv, bits):
    s = sget(eng, st, lv)
    return s_clear(eng, st, lv, s.f['st'] | bits)


def B32(v):
    return z3.BitVecVal(v, 32)


def sentry(eng, st, lv):
    """yield (st, True|False|Throw): input sentry with noskipws"""
    s = sget(eng, st, lv)
    for s1, ok in eng.fork(st, s.f['st'] == 0):
        if ok:
            yield s1, True
        else:
            for s2, r in s_setstate(eng, s1, lv, B32(FAIL)):
                yield s2, (r if isinstance(r, Throw) else False)


def s_read(eng, st, lv, p, n, node):
    A = eng.A
    sset(eng, st, lv, gcount=A.const(0))
    for s1, ok in sentry(eng, st, lv):
        if isinstance(ok, Throw):
            yield s1, ok
            continue
        if not ok:
            yield s1, lv
            continue
        s = sget(eng, s1, lv)
        size, pos = s.f['data'].len, s.f['pos']
        eng.oblige(s1, 'read count not negative', A.le(A.const(0), n), node)
        avail = z3.simplify(size - pos)
        short = z3.Or(A.lt(avail, n), A.lt(avail, A.const(0)))
        for s2, sh in eng.fork(s1, short):
            if not sh:
                k = n
            else:
                k = z3.simplify(z3.If(A.lt(avail, A.const(0)), A.const(0), avail))
            s = sget(eng, s2, lv)
            d = s.f['data']
            s2.add_T(pos)
            src = Seq(lambda j, d=d, pos=pos: d.get(A, z3.simplify(pos + j)), n, 8, 'string')
            mem_write(eng, s2, p, src, k, node, 'read buffer large enough')
            # a short read still needs room only for what was read
            sset(eng, s2, lv, pos=z3.simplify(pos + k), gcount=k)
            if sh:
                for s3, r in s_setstate(eng, s2, lv, B32(EOFB | FAIL)):
                    yield s3, (r if isinstance(r, Throw) else lv)
            else:
                yield s2, lv


def s_tellg(eng, st, lv):
    for s1, ok in sentry(eng, st, lv):
        if isinstance(ok, Throw):
            yield s1, ok
        elif ok:
            yield s1, sget(eng, s1, lv).f['pos']
        else:
            yield s1, eng.A.wrap(eng.A.const(-1), True)


def s_seek(eng, st, lv, target_of):
    """target_of(stream) -> term"""
    A = eng.A
    s = sget(eng, st, lv)
    for s0, r in s_clear(eng, st, lv, s.f['st'] & B32(~EOFB & 0xffffffff)):
        if isinstance(r, Throw):
            yield s0, r
            continue
        for s1, ok in sentry(eng, s0, lv):
            if isinstance(ok, Throw):
                yield s1, ok
                continue
            if not ok:
                yield s1, lv
                continue
            s = sget(eng, s1, lv)
            t = z3.simplify(target_of(s))
            good = z3.And(A.le(A.const(0), t), z3.Or(A.le(t, s.f['data'].len), s.f['beyond']))
            for s2, g in eng.fork(s1, good):
                if g:
                    sset(eng, s2, lv, pos=t)
                    yield s2, lv
                else:
                    for s3, r in s_setstate(eng, s2, lv, B32(FAIL)):
                        yield s3, (r if isinstance(r, Throw) else lv)


def ix_arg(eng, st, v, a):
    t = eng.ctype(a) if isinstance(a, dict) else a
    v = eng.rv(st, v)
    if eng.itype(t) is None:
        return v
    return eng.ix(v, t)


def stream_method(eng, st, lv, name, vs, n, args):
    A = eng.A
    s = sget(eng, st, lv)
    if name == 'exceptions':
        if not vs:
            yield st, s.f['exc']
            return
        sset(eng, st, lv, exc=eng.rv(st, vs[0]))
        for s1, r in s_clear(eng, st, lv, s.f['st']):
            yield s1, r
    elif name == 'clear':
        for s1, r in s_clear(eng, st, lv, eng.rv(st, vs[0]) if vs else B32(0)):
            yield s1, r
    elif name == 'setstate':
        for s1, r in s_setstate(eng, st, lv, eng.rv(st, vs[0])):
            yield s1, r
    elif name == 'rdstate':
        yield st, s.f['st']
    elif name == 'good':
        yield st, s.f['st'] == 0
    elif name == 'eof':
        yield st, (s.f['st'] & EOFB) != 0
    elif name in ('fail', 'operator!'):
        yield st, (s.f['st'] & (BAD | FAIL)) != 0
    elif name == 'bad':
        yield st, (s.f['st'] & BAD) != 0
    elif name == 'operator bool':
        yield st, (s.f['st'] & (BAD | FAIL)) == 0
    elif name == 'read':
        for o in s_read(eng, st, lv, eng.rv(st, vs[0]), ix_arg(eng, st, vs[1], args[1]), n):
            yield o
    elif name == 'gcount':
        yield st, s.f['gcount']
    elif name == 'tellg':
        for o in s_tellg(eng, st, lv):
            yield o
    elif name == 'seekg':
        off = ix_arg(eng, st, vs[0], args[0])
        if len(vs) == 1:
            for o in s_seek(eng, st, lv, lambda s: off):
                yield o
            return
        d = z3.simplify(eng.rv(st, vs[1]))
        if not z3.is_bv_value(d):
            raise Unsupported('symbolic seek direction')
        d = d.as_long()
        base = {0: lambda s: off, 1: lambda s: s.f['pos'] + off, 2: lambda s: s.f['data'].len + off}[d]
        for o in s_seek(eng, st, lv, base):
            yield o
    elif name == 'get' and not vs:
        cell = st.alloc(z3.BitVecVal(0, 8), 'ch')
        for s1, r in s_read(eng, st, lv, Ptr(cell, A.const(0), True), A.const(1), n):
            if isinstance(r, Throw):
                yield s1, r
                continue
            s = sget(eng, s1, lv)
            yield s1, z3.If(s.f['gcount'] == 1, z3.ZeroExt(24, s1.store[cell.cell]), z3.BitVecVal(0xffffffff, 32))
    elif name == 'get' and len(vs) == 1 and isinstance(vs[0], LV):
        for s1, r in s_read(eng, st, lv, eng.addr(st, vs[0]), A.const(1), n):
            yield s1, r
    elif name == 'ignore':
        raise Unsupported('ignore')
    elif name == 'write':
        cnt = ix_arg(eng, st, vs[1], args[1])
        eng.oblige(st, 'write count not negative', A.le(A.const(0), cnt), n)
        d = mem_read(eng, st, eng.rv(st, vs[0]), cnt, n)
        emit(eng, st, lv, d)
        yield st, lv
    elif name == 'put':
        emit(eng, st, lv, seq_const(A, [eng.rv(st, vs[0])], 'string'))
        yield st, lv
    elif name == 'str' and not vs:
        o = s.f['out']
        yield st, Seq(o.sel, o.len, 8, 'string', o.over)
    elif name in ('flush', 'close'):
        yield st, lv
    elif name == 'is_open':
        yield st, z3.BoolVal(True)
    elif name == 'tellp':
        yield st, s.f['out'].len
    elif name == 'fill':
        old = s.f['fill']
        if vs:
            sset(eng, st, lv, fill=eng.rv(st, vs[0]))
        yield st, old
    elif name == 'width':
        old = s.f['width']
        if vs:
            w = eng.rv(st, vs[0])
            sset(eng, st, lv, width=A.to_bv(w, 32))
        yield st, eng.conv(old, 'int', 'long')
    else:
        raise Unsupported('stream method ' + name)


def emit(eng, st, lv, d):
    s = sget(eng, st, lv)
    sset(eng, st, lv, out=seq_concat(eng.A, s.f['out'], d))
    h = getattr(eng, 'on_emit', None)
    if h:
        h(st, lv, d)


def put_int(eng, st, lv, v, w, signed):
    """formatted integer output, forking on the digit count"""
    A = eng.A
    s = sget(eng, st, lv)
    base = z3.simplify(s.f['base']).as_long()
    width = z3.simplify(s.f['width']).as_long()
    fill = s.f['fill']
    W = v.size() if z3.is_bv(v) else None
    if W is None:
        raise Unsupported('formatted 64-bit output')
    ndig = len('%x' % ((1 << W) - 1)) if base == 16 else len(str((1 << W) - 1))
    if base == 10 and signed:
        neg_ok = eng.feasible(st, v < 0)
        if neg_ok:
            raise Unsupported('formatted negative output')
    for k in range(1, ndig + 1):
        lo, hi = (0 if k == 1 else base ** (k - 1)), min(base ** k - 1, (1 << W) - 1)
        c = z3.And(z3.UGE(v, z3.BitVecVal(lo, W)), z3.ULE(v, z3.BitVecVal(hi, W)))
        if not eng.feasible(st, c):
            continue
        s1 = st.clone()
        s1.assume(c)
        ds = []
        for i in reversed(range(k)):
            d = z3.URem(z3.UDiv(v, z3.BitVecVal(base ** i, W)), z3.BitVecVal(base, W)) if base != 16 else \
                (z3.LShR(v, z3.BitVecVal(4 * i, W)) & 15)
            d = z3.Extract(7, 0, d)
            ds.append(z3.simplify(z3.If(z3.ULT(d, 10), d + 48, d + 87)))
        ds = [fill] * max(0, width - k) + ds
        emit(eng, s1, lv, seq_const(A, ds, 'string'))
        sset(eng, s1, lv, width=z3.BitVecVal(0, 32))
        yield s1, lv


def pad_text(eng, st, lv, seq):
    s = sget(eng, st, lv)
    w = z3.simplify(s.f['width'])
    if not z3.is_bv_value(w):
        raise Unsupported('symbolic width')
    if w.as_long() != 0:
        ln = eng.A.is_const(seq.len)
        if ln is None:
            raise Unsupported('padded symbolic text')
        if ln < w.as_long():
            emit(eng, st, lv, seq_const(eng.A, [s.f['fill']] * (w.as_long() - ln), 'string'))
        sset(eng, st, lv, width=z3.BitVecVal(0, 32))
    emit(eng, st, lv, seq)


def shift_out(eng, st, lv, v, n, a):
    A = eng.A
    t = eng.ctype(a)
    if isinstance(v, FnRef):
        nm = v.ref.get('name')
        if nm in ('hex', 'dec'):
            sset(eng, st, lv, base=z3.BitVecVal(16 if nm == 'hex' else 10, 8))
            yield st, lv
            return
        if nm == 'endl':
            emit(eng, st, lv, seq_const(A, [10], 'string'))
            yield st, lv
            return
        if nm in ('flush', 'boolalpha', 'right'):
            yield st, lv
            return
        raise Unsupported('manipulator ' + str(nm))
    v = eng.rv(st, v)
    if isinstance(v, Opaque) and v.name == 'setw':
        sset(eng, st, lv, width=v.args[0])
        yield st, lv
        return
    if isinstance(v, Opaque) and v.name == 'setfill':
        sset(eng, st, lv, fill=v.args[0])
        yield st, lv
        return
    if isinstance(v, Seq) and v.kind == 'string':
        pad_text(eng, st, lv, v)
        yield st, lv
        return
    if isinstance(v, (Ptr, Seq)):
        pad_text(eng, st, lv, cstr(eng, st, v))
        yield st, lv
        return
    it = eng.itype(t)
    if it and it[0] == 8:
        pad_text(eng, st, lv, seq_const(A, [v], 'string'))
        yield st, lv
        return
    if it and it[0] in (16, 32):
        for o in put_int(eng, st, lv, v, *it):
            yield o
        return
    if it and it[0] == 64 and A.mode == 'bv':
        for o in put_int(eng, st, lv, v, *it):
            yield o
        return
    if it and it[0] == 64 and not it[1]:
        s = sget(eng, st, lv)
        if z3.simplify(s.f['base']).as_long() != 10 or z3.simplify(s.f['width']).as_long() != 0:
            raise Unsupported('formatted 64-bit output')
        emit(eng, st, lv, decimal(A, v))
        yield st, lv
        return
    raise Unsupported('<< of ' + t)


_DEC = z3.Function('decimal', z3.IntSort(), z3.IntSort(), z3.BitVecSort(8))
_DECLEN = z3.Function('decimal_length', z3.IntSort(), z3.IntSort())


def decimal(A, v):
    """decimal notation of a number: some non-empty text that depends on the number alone"""
    k = _DECLEN(v)
    return Seq(lambda j: _DEC(v, j), z3.If(k >= 1, k, 1), 8, 'string')


def cstr(eng, st, v):
    """Seq of a C string (constant length)"""
    A = eng.A
    if isinstance(v, Ptr):
        base = eng.load(st, v.lv, check=False)
        off = A.is_const(v.off)
        if isinstance(base, Seq) and base.kind == 'string' and off == 0:
            # c_str(): up to the first NUL; strings with embedded NULs are cut
            raise Unsupported('C string of symbolic text')
    else:
        base, off = v, 0
    if not isinstance(base, Seq) or off is None or A.is_const(base.len) is None:
        raise Unsupported('C string')
    out = []
    for i in range(off, A.is_const(base.len)):
        c = z3.simplify(base.get(A, A.const(i)))
        if not z3.is_bv_value(c):
            raise Unsupported('symbolic C string')
        if c.as_long() == 0:
            return seq_const(A, out, 'string')
        out.append(c.as_long())
    raise Unsupported('unterminated C string')


# ---------------------------------------------------------------- containers
def as_seq(eng, st, v):
    """a string argument: std::string, C string or char"""
    v = eng.rv(st, v)
    if isinstance(v, Seq):
        return v if v.kind != 'array' else cstr(eng, st, v)
    if isinstance(v, Ptr):
        return cstr(eng, st, v)
    if z3.is_bv(v) and v.size() == 8:
        return seq_const(eng.A, [v], 'string')
    raise Unsupported('text %r' % (v,))


def back_insert(eng, st, bi, val):
    v = eng.load(st, bi.lv)
    eng.storev(st, bi.lv, push(eng, st, v, val))


def push(eng, st, v, val):
    A = eng.A
    st.add_T(v.len)
    r = v.set(A, v.len, val)
    return r.with_len(z3.simplify(v.len + A.const(1)))


def range_seq(eng, st, p0, p1, node):
    """the elements of [p0,p1) as a Seq"""
    A = eng.A
    if p0.lv is None and p1.lv is None:
        return seq_const(A, [], 'vector')
    if p0.lv is None or p1.lv is None or not p0.lv.same(p1.lv):
        raise Unsupported('range over different objects')
    n = z3.simplify(p1.off - p0.off)
    v = eng.load(st, p0.lv, check=False)
    if not isinstance(v, Seq):
        raise Unsupported('range over %r' % (v,))
    hi = v.len + A.const(1) if v.kind == 'string' else v.len
    eng.oblige(st, 'range well formed and within bounds',
               z3.And(A.le(A.const(0), p0.off), A.le(p0.off, p1.off), A.le(p1.off, hi)), node)
    st.add_T(p0.off)
    st.add_T(p1.off)
    cn, co = A.is_const(n), A.is_const(p0.off)
    if cn is not None and cn <= 1024:
        return seq_const(A, [v.get(A, z3.simplify(p0.off + A.const(i))) for i in range(cn)], 'vector', v.ew)
    return Seq(lambda j, v=v, o=p0.off: v.get(A, z3.simplify(o + j)), n, v.ew, 'vector')


def seq_method(eng, st, lv, name, vs, n, args):
    A = eng.A
    v = eng.load(st, lv)
    z = A.const(0)
    if name in ('size', 'length'):
        yield st, v.len
    elif name == 'empty':
        yield st, v.len == z
    elif name in ('begin', 'cbegin', 'data', 'c_str'):
        yield st, Ptr(lv, z)
    elif name in ('end', 'cend'):
        st.add_T(v.len)
        yield st, Ptr(lv, v.len)
    elif name == 'max_size':
        yield st, A.const((1 << 62) - 1)
    elif name in ('reserve', 'shrink_to_fit'):
        yield st, None
    elif name in ('native', 'string', 'u8string') and not vs:      # a path is its text
        yield st, lv
    elif name == 'front':
        yield st, lv.elem(z)
    elif name == 'back':
        yield st, lv.elem(z3.simplify(v.len - A.const(1)))
    elif name == 'operator[]':
        yield st, lv.elem(ix_arg(eng, st, vs[0], args[0]))
    elif name == 'at':
        i = ix_arg(eng, st, vs[0], args[0])
        for s1, t in eng.fork(st, z3.And(A.le(z, i), A.lt(i, v.len))):
            yield s1, (lv.elem(i) if t else Throw('std::out_of_range'))
    elif name in ('push_back', 'emplace_back'):
        eng.storev(st, lv, push(eng, st, v, eng.rv(st, vs[0])))
        yield st, lv.elem(v.len)
    elif name == 'pop_back':
        eng.oblige(st, 'pop_back of a non-empty container', A.lt(z, v.len), n)
        eng.storev(st, lv, v.with_len(z3.simplify(v.len - A.const(1))))
        yield st, None
    elif name == 'clear':
        eng.storev(st, lv, v.with_len(z))
        yield st, None
    elif name == 'swap' and isinstance(vs[0], LV) and isinstance(eng.load(st, vs[0]), Seq):
        w = eng.load(st, vs[0])
        eng.storev(st, vs[0], v)
        eng.storev(st, lv, w)
        yield st, None
    elif name == 'resize':
        k = ix_arg(eng, st, vs[0], args[0])
        fill = eng.rv(st, vs[1]) if len(vs) > 1 else z3.BitVecVal(0, v.ew)
        ck, cl = A.is_const(k), A.is_const(v.len)
        if ck is not None and cl is not None:
            o = dict(v.over)
            for i in range(cl, ck):
                o[i] = fill
            eng.storev(st, lv, Seq(v.sel, A.const(ck), v.ew, v.kind, o, v.signed))
        else:
            old = v
            eng.storev(st, lv, Seq(lambda j: z3.If(A.lt(j, old.len), old.get(A, j), fill), k, v.ew, v.kind))
        yield st, None
    elif name == 'fill':
        x = eng.rv(st, vs[0])
        eng.storev(st, lv, Seq(lambda j: x, v.len, v.ew, v.kind))
        yield st, None
    elif name == 'assign' and len(vs) == 2 and isinstance(eng.rv(st, vs[0]), Ptr) and isinstance(eng.rv(st, vs[1]), Ptr):
        s = range_seq(eng, st, eng.rv(st, vs[0]), eng.rv(st, vs[1]), n)
        eng.storev(st, lv, Seq(s.sel, s.len, v.ew, v.kind, s.over))
        yield st, lv
    elif name in ('append', 'operator+='):
        if len(vs) == 1:
            s = as_seq(eng, st, vs[0])
        elif len(vs) == 2 and isinstance(eng.rv(st, vs[0]), Ptr) and isinstance(eng.rv(st, vs[1]), Ptr):
            s = range_seq(eng, st, eng.rv(st, vs[0]), eng.rv(st, vs[1]), n)
        elif len(vs) == 2 and isinstance(eng.rv(st, vs[0]), Ptr):
            s = mem_read(eng, st, eng.rv(st, vs[0]), ix_arg(eng, st, vs[1], args[1]), n)
        elif len(vs) == 2 and A.is_const(ix_arg(eng, st, vs[0], args[0])) is not None:
            s = seq_const(A, [eng.rv(st, vs[1])] * A.is_const(ix_arg(eng, st, vs[0], args[0])), 'string')
        else:
            raise Unsupported('append')
        st.add_T(v.len)
        eng.storev(st, lv, seq_concat(A, v, s))
        yield st, lv
    elif name == 'insert' and len(vs) == 3 and isinstance(eng.rv(st, vs[0]), Ptr):
        p = eng.rv(st, vs[0])
        a, b = eng.rv(st, vs[1]), eng.rv(st, vs[2])
        if not z3.is_true(z3.simplify(p.off == v.len)) or not isinstance(b, Ptr):
            raise Unsupported('insert in the middle')
        eng.storev(st, lv, seq_concat(A, v, range_seq(eng, st, a, b, n)))
        yield st, Ptr(lv, v.len)
    elif name == 'substr':
        p = ix_arg(eng, st, vs[0], args[0]) if vs else z
        k = z3.simplify(v.len - p) if len(vs) < 2 else None
        if k is None:
            k0 = ix_arg(eng, st, vs[1], args[1])
            k = z3.If(z3.Or(A.lt(k0, z), A.lt(v.len - p, k0)), v.len - p, k0)
        for s1, t in eng.fork(st, z3.And(A.le(z, p), A.le(p, v.len))):
            if t:
                yield s1, Seq(lambda j, p=p: v.get(A, z3.simplify(p + j)), z3.simplify(k), v.ew, 'string')
            else:
                yield s1, Throw('std::out_of_range')
    elif name == 'compare':
        raise Unsupported('compare')
    elif name in ('find_first_of', 'find'):
        for o in string_find(eng, st, lv, v, name, vs, n, args):
            yield o
    else:
        raise Unsupported('container method ' + name)


def string_find(eng, st, lv, v, name, vs, n, args):
    A = eng.A
    a0 = eng.rv(st, vs[0])
    start = A.const(0)
    if len(vs) > 2:
        raise Unsupported('find with a length')
    if len(vs) > 1:
        start = eng.rv(st, vs[1])
    if isinstance(a0, Ptr):
        base = eng.load(st, a0.lv, check=False)
        ln = A.is_const(base.len)
        if ln is None:
            raise Unsupported('find of symbolic set')
        cs = [base.get(A, A.const(i)) for i in range(ln)]
        # a C string: characters before the first NUL
        live, out = z3.BoolVal(True), []
        for c in cs:
            live = z3.And(live, c != 0)
            out.append((c, z3.simplify(live)))
    elif isinstance(a0, Seq) and A.is_const(a0.len) is not None:
        out = [(a0.get(A, A.const(i)), z3.BoolVal(True)) for i in range(A.is_const(a0.len))]
    elif z3.is_bv(a0):
        out = [(a0, z3.BoolVal(True))]
    else:
        raise Unsupported('find')
    if name == 'find' and len(out) != 1:
        raise Unsupported('find of a substring')

    def hit(c):
        return z3.Or(*[z3.And(l, c == k) for k, l in out])
    # found at q: v[q] in set, none before
    q = A.fresh('found')
    s1 = st.clone()
    s1.assume(z3.And(A.le(A.const(0), q), A.cmp('<=', start, q, False), A.lt(q, v.len)))
    s1.add_T(q)
    s1.assume(hit(v.get(A, q)))
    s1.assume(FA(lambda j: z3.Implies(z3.And(A.le(A.const(0), j), A.cmp('<=', start, j, False), A.lt(j, q)), z3.Not(hit(v.get(A, j))))))
    if eng.feasible(s1):
        yield s1, q
    s2 = st
    s2.assume(FA(lambda j: z3.Implies(z3.And(A.le(A.const(0), j), A.cmp('<=', start, j, False), A.lt(j, v.len)), z3.Not(hit(v.get(A, j))))))
    yield s2, A.wrap(A.const(-1), False)


def method(eng, st, lv, name, vs, n, args):
    h = eng.model_overrides.get(name)
    if h:
        r = h(eng, st, lv, name, vs, n, args)
        if r is not None:
            return r
    v = eng.load(st, lv)
    eng.used_models.add('%s::%s' % ({'Stream': 'stream', 'Seq': 'container'}.get(type(v).__name__, type(v).__name__), name))
    if isinstance(v, Stream):
        return stream_method(eng, st, lv, name, vs, n, args)
    if isinstance(v, Seq):
        return seq_method(eng, st, lv, name, vs, n, args)
    return misc_method(eng, st, lv, v, name, vs, n, args)


def misc_method(eng, st, lv, v, name, vs, n, args):
    if isinstance(v, Opt):
        if name in ('has_value', 'operator bool', 'is_initialized'):
            yield st, v.f['has']
        elif name in ('value', 'get'):
            if name == 'get':
                eng.oblige(st, 'optional engaged', v.f['has'], n)
                yield st, lv.field('val')
                return
            for s1, t in eng.fork(st, v.f['has']):
                yield s1, (lv.field('val') if t else Throw('std::bad_optional_access'))
        elif name == 'reset':
            eng.storev(st, lv, Opt('optional', {'has': z3.BoolVal(False), 'val': v.f['val']}))
            yield st, None
        else:
            raise Unsupported('optional::' + name)
    elif z3.is_expr(v) and name.startswith('operator '):     # fpos -> streamoff
        yield st, v
    elif isinstance(v, Ptr):
        if name == 'get':
            yield st, v
        elif name == 'operator bool':
            yield st, z3.BoolVal(v.lv is not None)
        elif name == 'base':
            yield st, v
        elif name == 'reset' and not vs:
            eng.storev(st, lv, Ptr(None, eng.A.const(0)))
            yield st, None
        elif name == 'reset' and len(vs) == 1 and isinstance(eng.rv(st, vs[0]), Ptr):
            eng.storev(st, lv, eng.rv(st, vs[0]))
            yield st, None
        else:
            raise Unsupported('pointer method ' + name)
    elif isinstance(v, Opaque) and name.startswith('what'):
        yield st, v
    else:
        raise Unsupported('method %s of %r' % (name, v))


# ---------------------------------------------------------------- operators
def operator(eng, st, name, vs, n, args):
    A = eng.A
    op = name[len('operator'):]
    a = vs[0]
    av = eng.rv(st, a) if not isinstance(a, FnRef) else a
    h = eng.model_overrides.get(name)
    if h:
        r = h(eng, st, a, name, vs, n, args)
        if r is not None:
            for o in r:
                yield o
            return
    if isinstance(av, Closure) and op == '()':
        for o in call_closure(eng, st, av, vs[1:], n):
            yield o
        return
    if isinstance(av, Stream):
        if op == '<<':
            for o in shift_out(eng, st, a, vs[1], n, args[1]):
                yield o
            return
        if op == '!':
            yield st, (av.f['st'] & (BAD | FAIL)) != 0
            return
        raise Unsupported('stream ' + name)
    bv = eng.rv(st, vs[1]) if len(vs) > 1 else None
    if isinstance(av, Opaque) and av.name == 'tie' and op == '=':
        for i, l in enumerate(av.args):
            x = bv.f[str(i)]
            if l is not None:
                eng.storev(st, l, x)
        yield st, a
        return
    if isinstance(av, BackInserter) or (isinstance(av, LV) and False):
        if op == '*':
            yield st, av
            return
        if op in ('++',):
            yield st, a
            return
        if op == '=':
            if isinstance(bv, BackInserter):
                eng.storev(st, a, bv)
            else:
                back_insert(eng, st, av, bv)
            yield st, a
            return
    if op == '<=>':
        yield st, Opaque('cmp3', av, eng.rv(st, vs[1]), n, eng.ctype(args[0]))
        return
    if isinstance(av, Opaque) and av.name == 'cmp3' and op in ('==', '!=', '<', '<=', '>', '>='):
        x, y, nn, ty = av.args
        yield st, eng.compare(op, x, y, ty, st, nn)
        return
    if isinstance(av, Ptr):
        if op == '*':
            yield st, eng.deref(st, av, n)
            return
        if op == '->':
            yield st, av
            return
        if op in ('++', '--'):
            new = Ptr(av.lv, z3.simplify(av.off + A.const(1 if op == '++' else -1)), av.single)
            eng.storev(st, a, new)
            yield st, (av if len(vs) == 2 else a)       # postfix has the dummy argument
            return
        if op in ('==', '!=', '<', '<=', '>', '>='):
            yield st, eng.cmp_ptr(op, av, bv, st, n)
            return
        if op in ('+', '-') and not isinstance(bv, (Ptr, Seq)):
            d = ix_arg(eng, st, bv, args[1])
            yield st, Ptr(av.lv, z3.simplify(av.off + d if op == '+' else av.off - d), av.single)
            return
        if op == '-' and isinstance(bv, Ptr):
            yield st, eng.binop('-', av, bv, '', '', 'long', st, n)
            return
        if op in ('+=', '-='):
            d = ix_arg(eng, st, bv, args[1])
            eng.storev(st, a, Ptr(av.lv, z3.simplify(av.off + d if op == '+=' else av.off - d), av.single))
            yield st, a
            return
        if op == '[]':
            d = ix_arg(eng, st, bv, args[1])
            yield st, eng.deref(st, Ptr(av.lv, z3.simplify(av.off + d), av.single), n)
            return
        if op == '=':
            eng.storev(st, a, bv)
            yield st, a
            return
    if isinstance(av, Seq):
        if op == '[]':
            yield st, a.elem(ix_arg(eng, st, bv, args[1]))
            return
        if op == '+=':
            for o in seq_method(eng, st, a, 'operator+=', [vs[1]], n, args[1:]):
                yield o
            return
        if op == '=':
            s = bv if isinstance(bv, Seq) and not (av.kind == 'string' and bv.kind == 'array') else as_seq(eng, st, bv)
            eng.storev(st, a, Seq(s.sel, s.len, av.ew, av.kind, s.over, av.signed))
            yield st, a
            return
        if op == '+':
            yield st, seq_concat(A, as_seq(eng, st, av), as_seq(eng, st, bv))
            return
        if op in ('==', '!='):
            s, t = as_seq(eng, st, av) if av.kind == 'string' else av, bv
            if av.kind == 'string':
                t = as_seq(eng, st, bv)
            r = seq_equal(eng, st, s, t)
            yield st, (r if op == '==' else z3.Not(r))
            return
    if isinstance(bv, Seq) and bv.kind == 'string' and op == '+':
        yield st, seq_concat(A, as_seq(eng, st, av), bv)
        return
    if isinstance(bv, Seq) and op in ('==', '!='):
        r = seq_equal(eng, st, as_seq(eng, st, av), bv)
        yield st, (r if op == '==' else z3.Not(r))
        return
    if isinstance(av, Opt):
        if op == '=':
            if isinstance(bv, Opt):
                eng.storev(st, a, bv)
            else:
                at = E.strip_type(E.qt(args[0]))
                want = targ(at, 0)
                if z3.is_expr(bv) and eng.itype(want) and eng.itype(eng.ctype(args[1])):
                    bv = eng.conv(bv, eng.ctype(args[1]), want)
                eng.storev(st, a, Opt('optional', {'has': z3.BoolVal(True), 'val': bv}))
            yield st, a
            return
        if op in ('*', '->'):
            eng.oblige(st, 'optional engaged', av.f['has'], n)
            l = a if isinstance(a, LV) else st.alloc(av, 'opt')
            yield st, (l.field('val') if op == '*' else Ptr(l.field('val'), A.const(0), True))
            return
        if op == '!':
            yield st, z3.Not(av.f['has'])
            return
        if op in ('==', '!=') and isinstance(bv, Opt):
            r = av.f['has'] == bv.f['has']
            if z3.is_expr(av.f['val']) and z3.is_expr(bv.f['val']):
                r = z3.And(r, z3.Implies(av.f['has'], av.f['val'] == bv.f['val']))
            elif not any(z3.is_false(z3.simplify(x.f['has'])) for x in (av, bv)):
                raise Unsupported('comparison of optionals')
            yield st, (r if op == '==' else z3.Not(r))
            return
    if z3.is_expr(av):
        if op == '=':
            eng.storev(st, a, bv)
            yield st, a
            return
        ta = eng.ctype(args[0])
        tb = eng.ctype(args[1]) if len(args) > 1 else None
        if z3.is_bv(av) and av.size() < 64:
            if op in ('|', '&', '^'):
                yield st, {'|': av | bv, '&': av & bv, '^': av ^ bv}[op]
                return
            if op == '~':
                yield st, ~av
                return
            if op in ('|=', '&=', '^='):
                eng.storev(st, a, {'|': av | bv, '&': av & bv, '^': av ^ bv}[op[0]])
                yield st, a
                return
        else:       # positions
            if op in ('+', '-'):
                d = ix_arg(eng, st, bv, args[1])
                yield st, A.wrap(av + d if op == '+' else av - d, True)
                return
            if op in ('+=', '-='):
                d = ix_arg(eng, st, bv, args[1])
                eng.storev(st, a, A.wrap(av + d if op == '+=' else av - d, True))
                yield st, a
                return
            if op in ('==', '!=', '<', '<=', '>', '>='):
                d = ix_arg(eng, st, bv, args[1])
                yield st, eng.compare(op, av, d, 'long', st, n)
                return
        if op in ('==', '!='):
            yield st, (av == bv if op == '==' else av != bv)
            return
    if op == '=' and isinstance(a, LV):
        eng.storev(st, a, bv)
        yield st, a
        return
    raise Unsupported('%s on %r, %r' % (name, av, bv))


def seq_equal(eng, st, s, t):
    A = eng.A
    ls, lt = A.is_const(s.len), A.is_const(t.len)
    k = ls if ls is not None else lt
    if k is None or k > 512:
        raise Unsupported('comparison of symbolic sequences')
    return z3.And(s.len == t.len, *[s.get(A, A.const(i)) == t.get(A, A.const(i)) for i in range(k)])


def call_closure(eng, st, c, vals, n):
    fn = c.node
    saved_env, saved_this = st.env, st.this
    st.env = dict(c.env)
    st.this = c.this
    for p, v in zip(TU.params(fn), vals):
        eng.bind(st, p, v)
    for s1, out in eng.ex(TU.body(fn), st):
        s1.env, s1.this = dict(saved_env), saved_this
        if out is None:
            yield s1, None
        elif out[0] == 'ret':
            yield s1, out[1]
        elif out[0] == 'throw':
            yield s1, out[1]
        else:
            raise Unsupported('closure outcome')


# ---------------------------------------------------------------- constructors
def construct(eng, n, t, st):
    A = eng.A
    k = class_kind(t)
    h = eng.model_overrides.get('construct:' + str(k))
    args = [a for a in eng.kids(n)]
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr' or eng.kids(a)]
    if h:
        r = h(eng, n, t, st, args)
        if r is not None:
            for o in r:
                yield o
            return
    if k == 'other' and t in E.STD_EXC or t.startswith('std::') and t in E.STD_EXC:
        yield st, Opaque('exception', t)
        return
    for s1, vs in eng.evs(args, st):
        if isinstance(vs, Throw):
            yield s1, vs
            continue
        yield s1, build(eng, s1, n, t, k, vs, args)


def build(eng, st, n, t, k, vs, args):
    A = eng.A
    if not vs:
        if k == 'array' and n.get('zeroing'):
            return eng.default_value(st, t, 'arr', init=True)
        if k in ('pair', 'tuple'):
            return eng.default_value(st, t, 'tup', init=True)
        if k == 'other':
            return Opaque('default', t)
        try:
            return eng.default_value(st, t, 'obj')
        except E.Unsupported:
            return Opaque('default', t)
    v0 = eng.rv(st, vs[0]) if not isinstance(vs[0], FnRef) else vs[0]
    if k == 'string':
        if isinstance(v0, Seq) and v0.kind == 'string':
            return v0
        if len(vs) == 2 and isinstance(v0, Ptr):
            v1 = eng.rv(st, vs[1])
            if isinstance(v1, Ptr):
                s = range_seq(eng, st, v0, v1, n)
            else:
                s = mem_read(eng, st, v0, ix_arg(eng, st, vs[1], args[1]), n)
            return Seq(s.sel, s.len, 8, 'string', s.over)
        if isinstance(v0, (Ptr, Seq)) and len(vs) == 1:
            return cstr(eng, st, v0)
        if len(vs) == 2 and A.is_const(ix_arg(eng, st, vs[0], args[0])) is not None:
            return seq_const(A, [eng.rv(st, vs[1])] * A.is_const(ix_arg(eng, st, vs[0], args[0])), 'string')
        raise Unsupported('string constructor')
    if k == 'initlist' and len(vs) == 1 and isinstance(eng.rv(st, vs[0]), Opaque):
        return eng.rv(st, vs[0])
    if k in ('vector', 'array', 'initlist'):
        if isinstance(v0, Seq) and len(vs) == 1:
            return Seq(v0.sel, v0.len, v0.ew, k, v0.over, v0.signed)
        ew = eng.elem_width(targ(t, 0))
        if len(vs) == 2 and isinstance(v0, Ptr):
            s = range_seq(eng, st, v0, eng.rv(st, vs[1]), n)
            return Seq(s.sel, s.len, ew, k, s.over)
        ln = ix_arg(eng, st, vs[0], args[0])
        fill = eng.rv(st, vs[1]) if len(vs) > 1 else z3.BitVecVal(0, ew)
        return Seq(lambda j: fill, ln, ew, k)
    if k == 'optional':
        if isinstance(v0, Opt):
            return v0
        if isinstance(v0, Opaque) and v0.name == 'default':
            return Opt('optional', {'has': z3.BoolVal(False), 'val': None})
        et, at = targ(t, 0), eng.ctype(args[0]) if args else None
        if at and z3.is_expr(v0) and eng.itype(et) and eng.itype(at):
            v0 = eng.conv(v0, at, et)
        return Opt('optional', {'has': z3.BoolVal(True), 'val': v0})
    if k == 'fpos':
        return ix_arg(eng, st, vs[0], args[0])
    if k in ('pair', 'tuple'):
        if len(vs) == 1 and isinstance(v0, Tup):
            want = targs(t)
            return v0
        return Tup(k, {str(i): eng.rv(st, v) for i, v in enumerate(vs)})
    if k in ('smartptr', 'iterator'):
        return v0
    if k == 'sstream':
        v = eng.rv(st, vs[0])
        if isinstance(v, Seq):
            return new_sstream(eng, st, v)
        return new_sstream(eng, st)
    if isinstance(v0, (Closure, BackInserter, Opaque, Stream, Opt)) and len(vs) == 1:
        return v0
    if isinstance(v0, Ptr) and len(vs) == 1:
        return v0
    if k == 'other' and z3.is_expr(v0) and len(vs) == 1:
        return v0
    if t == 'std::filesystem::path' and len(vs) <= 2:
        return as_seq(eng, st, v0)
    raise Unsupported('constructor of ' + t)


def new_expr(eng, n, st):
    h = eng.model_overrides.get('new')
    r = h(eng, n, st) if h else None
    if r is not None:
        for o in r:
            yield o
        return
    t = E.strip_type(E.qt(n))
    k = eng.kids(n)
    if n.get('isArray'):
        for s1, v in eng.ev(k[0], st):
            if isinstance(v, Throw):
                yield s1, v
                continue
            ln = ix_arg(eng, s1, v, k[0])
            et = t[:-1].strip()
            if eng.A.mode == 'int':
                big = z3.Or(ln < 0, ln >= ((1 << 63) // max(1, eng.elem_width(et) // 8)))
                for s2, b in eng.fork(s1.clone(), big):
                    if b:
                        yield s2, Throw('std::bad_array_new_length')
                s1.assume(z3.Not(big))
                if not eng.feasible(s1):
                    continue
            cell = s1.alloc(seq_sym(eng.A, fresh_name('new'), ln, eng.elem_width(et), 'array'), 'new')
            yield s1, Ptr(cell, eng.A.const(0))
        return
    if k and k[-1]['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
        try:
            res = list(eng.ev(k[-1], st.clone()))
        except Unsupported:
            yield st, Ptr(st.alloc(Opaque('new', t), 'new'), eng.A.const(0), True)
            return
        for s1, v in res:
            if isinstance(v, Throw):
                yield s1, v
            else:
                yield s1, Ptr(s1.alloc(v, 'new'), eng.A.const(0), True)
        return
    yield st, Ptr(st.alloc(Opaque('new', t), 'new'), eng.A.const(0), True)


# ---------------------------------------------------------------- free functions
def bswap(v):
    bs = scalar_bytes(v)
    return z3.simplify(z3.Concat(*bs)) if len(bs) > 1 else v


def f_bswap(eng, st, vs, n, args):
    v = eng.rv(st, vs[0])
    if not z3.is_bv(v):
        raise Unsupported('byte swap')
    yield st, bswap(v)


def f_ident(eng, st, vs, n, args):
    yield st, vs[0]


def f_rvident(eng, st, vs, n, args):
    yield st, eng.rv(st, vs[0])


def f_min(eng, st, vs, n, args):
    a, b = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    t = eng.ctype(args[0])
    yield st, st.alloc(z3.If(eng.compare('<', b, a, t, st, n), b, a), 'min')


def f_max(eng, st, vs, n, args):
    if not vs:                  # std::numeric_limits<T>::max()
        w, s = eng.itype(eng.ctype(n))
        c = (1 << (w - (1 if s else 0))) - 1
        yield st, (eng.A.const(c) if w == 64 else z3.BitVecVal(c, w))
        return
    a, b = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    t = eng.ctype(args[0])
    yield st, st.alloc(z3.If(eng.compare('<', a, b, t, st, n), b, a), 'max')


def f_copy(eng, st, vs, n, args):
    A = eng.A
    p0, p1, d = (eng.rv(st, v) for v in vs)
    s = range_seq(eng, st, p0, p1, n)
    if isinstance(d, BackInserter):
        v = eng.load(st, d.lv)
        eng.storev(st, d.lv, seq_concat(A, v, s))
        yield st, d
        return
    if not isinstance(d, Ptr):
        raise Unsupported('copy to %r' % (d,))
    mem_write(eng, st, d, s, s.len, n)
    yield st, Ptr(d.lv, z3.simplify(d.off + s.len))


def f_copy_n(eng, st, vs, n, args):
    p0, d = eng.rv(st, vs[0]), eng.rv(st, vs[2])
    k = ix_arg(eng, st, vs[1], args[1])
    return f_copy(eng, st, [p0, Ptr(p0.lv, z3.simplify(p0.off + k), p0.single), d], n, args)


def f_memcpy(eng, st, vs, n, args):
    d, s = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    k = ix_arg(eng, st, vs[2], args[2])
    data = mem_read(eng, st, s, k, n)
    mem_write(eng, st, d, data, k, n)
    yield st, d


def f_memcmp(eng, st, vs, n, args):
    A = eng.A
    k = A.is_const(ix_arg(eng, st, vs[2], args[2]))
    if k is None or k > 64:
        raise Unsupported('memcmp of symbolic length')
    a = mem_read(eng, st, eng.rv(st, vs[0]), A.const(k), n)
    b = mem_read(eng, st, eng.rv(st, vs[1]), A.const(k), n)
    r = z3.BitVecVal(0, 32)
    for i in reversed(range(k)):
        x, y = a.get(A, A.const(i)), b.get(A, A.const(i))
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    yield st, r


def f_equal(eng, st, vs, n, args):
    A = eng.A
    p0, p1, q = (eng.rv(st, v) for v in vs[:3])
    s = range_seq(eng, st, p0, p1, n)
    k = A.is_const(s.len)
    if k is None or k > 512:
        raise Unsupported('equal of symbolic length')
    b = mem_read(eng, st, q, A.const(k), n)
    yield st, z3.And(*[s.get(A, A.const(i)) == b.get(A, A.const(i)) for i in range(k)])


def f_fill(eng, st, vs, n, args):
    p0, p1 = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    x = eng.rv(st, vs[2])
    ln = z3.simplify(p1.off - p0.off)
    mem_write(eng, st, p0, Seq(lambda j: x, ln, x.size(), 'vector'), ln, n)
    yield st, None


def f_memset(eng, st, vs, n, args):
    p, x = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    ln = ix_arg(eng, st, vs[2], args[2])
    b = z3.Extract(7, 0, x)
    mem_write(eng, st, p, Seq(lambda j: b, ln, 8, 'vector'), ln, n)
    yield st, p


def f_distance(eng, st, vs, n, args):
    a, b = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    yield st, eng.binop('-', b, a, '', '', 'long', st, n)


def f_next(eng, st, vs, n, args):
    a = eng.rv(st, vs[0])
    d = ix_arg(eng, st, vs[1], args[1]) if len(vs) > 1 else eng.A.const(1)
    yield st, Ptr(a.lv, z3.simplify(a.off + d), a.single)


def f_prev(eng, st, vs, n, args):
    a = eng.rv(st, vs[0])
    d = ix_arg(eng, st, vs[1], args[1]) if len(vs) > 1 else eng.A.const(1)
    yield st, Ptr(a.lv, z3.simplify(a.off - d), a.single)


def f_advance(eng, st, vs, n, args):
    a = eng.rv(st, vs[0])
    eng.storev(st, vs[0], Ptr(a.lv, z3.simplify(a.off + ix_arg(eng, st, vs[1], args[1])), a.single))
    yield st, None


def f_find(eng, st, vs, n, args):
    """result q: no match before q, match at q unless q is the end"""
    A = eng.A
    p0, p1 = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    x = eng.rv(st, vs[2])
    et = eng.ctype(args[2])
    if p0.lv is None:
        yield st, p1
        return
    v = eng.load(st, p0.lv, check=False)
    if not isinstance(v, Seq):
        raise Unsupported('find in %r' % (v,))
    range_seq(eng, st, p0, p1, n)
    vt = {8: 'char' if v.signed or v.kind == 'string' else 'unsigned char', 16: 'unsigned short', 32: 'unsigned int'}[v.ew]
    # both operands are promoted; equal after promotion
    w = max(v.ew, x.size(), 32)

    def cmp(e):
        return eng.conv(e, vt, 'int' if w == 32 else 'long') == eng.conv(x, et, 'int' if w == 32 else 'long')
    q = A.fresh('found')
    st.assume(z3.And(A.le(p0.off, q), A.le(q, p1.off)))
    st.add_T(q)
    st.assume(z3.Or(q == p1.off, cmp(v.get(A, q))))
    st.assume(FA(lambda j, a=p0.off: z3.Implies(z3.And(A.le(a, j), A.lt(j, q)), z3.Not(cmp(v.get(A, j)))), 'find'))
    yield st, Ptr(p0.lv, q)


def f_make_tuple(eng, st, vs, n, args):
    yield st, Tup('tuple', {str(i): eng.rv(st, v) for i, v in enumerate(vs)})


def f_tie(eng, st, vs, n, args):
    yield st, Opaque('tie', *vs)


def f_get(eng, st, vs, n, args):
    ref = eng.callee_ref(eng.kids(n)[0])
    raise Unsupported('std::get')


def f_back_inserter(eng, st, vs, n, args):
    yield st, BackInserter(vs[0])


def f_begin(eng, st, vs, n, args):
    v = eng.rv(st, vs[0])
    yield st, Ptr(vs[0], eng.A.const(0))


def f_end(eng, st, vs, n, args):
    v = eng.rv(st, vs[0])
    yield st, Ptr(vs[0], v.len)


def f_swap(eng, st, vs, n, args):
    a, b = eng.rv(st, vs[0]), eng.rv(st, vs[1])
    eng.storev(st, vs[0], b)
    eng.storev(st, vs[1], a)
    yield st, None


def f_setw(eng, st, vs, n, args):
    yield st, Opaque('setw', eng.rv(st, vs[0]))


def f_setfill(eng, st, vs, n, args):
    yield st, Opaque('setfill', eng.rv(st, vs[0]))


def f_strlen(eng, st, vs, n, args):
    yield st, cstr(eng, st, eng.rv(st, vs[0])).len


def f_log2(eng, st, vs, n, args):
    yield st, Opaque('log2', eng.rv(st, vs[0]))


def f_floor(eng, st, vs, n, args):
    yield st, Opaque('floor', eng.rv(st, vs[0]))


def f_isalnum(lo):
    pass


def _ctype(pred):
    def f(eng, st, vs, n, args):
        x = eng.rv(st, vs[0])
        yield st, z3.If(pred(x), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return f


def _rng(x, a, b):
    return z3.And(z3.UGE(x, ord(a)), z3.ULE(x, ord(b)))


FREE = {
    'move': f_ident, 'forward': f_ident, 'addressof': None, 'min': f_min, 'max': f_max, 'copy': f_copy, 'copy_n': f_copy_n,
    'memcpy': f_memcpy, 'memmove': f_memcpy, '__builtin_memcpy': f_memcpy, 'memcmp': f_memcmp, 'equal': f_equal, 'strncmp': None,
    'fill': f_fill, 'memset': f_memset, 'distance': f_distance, 'next': f_next, 'prev': f_prev, 'advance': f_advance,
    'find': f_find, 'make_tuple': f_make_tuple, 'make_pair': f_make_tuple, 'tie': f_tie,
    'back_inserter': f_back_inserter, 'begin': f_begin, 'end': f_end, 'cbegin': f_begin, 'cend': f_end, 'swap': f_swap,
    'setw': f_setw, 'setfill': f_setfill, 'strlen': f_strlen, 'log2': f_log2, 'floor': f_floor,
    'ntohs': f_bswap, 'ntohl': f_bswap, 'htons': f_bswap, 'htonl': f_bswap, '__bswap_16': f_bswap, '__bswap_32': f_bswap,
    '__builtin_bswap32': f_bswap, '__builtin_bswap16': f_bswap, '__uint16_identity': f_rvident, '__uint32_identity': f_rvident,
    'isdigit': _ctype(lambda x: _rng(x, '0', '9')),
    'isxdigit': _ctype(lambda x: z3.Or(_rng(x, '0', '9'), _rng(x, 'a', 'f'), _rng(x, 'A', 'F'))),
    'isalnum': _ctype(lambda x: z3.Or(_rng(x, '0', '9'), _rng(x, 'a', 'z'), _rng(x, 'A', 'Z'))),
    'isalpha': _ctype(lambda x: z3.Or(_rng(x, 'a', 'z'), _rng(x, 'A', 'Z'))),
}


def iter_op(eng, st, lv, name, n, nargs=0):
    """an operator of the repository's own iterator class, from its source"""
    v = eng.load(st, lv)
    cls, seen = v.cls, set()
    while cls and cls not in seen:
        seen.add(cls)
        fs = [f for f in eng.tu.find(cls + '::' + name) if f.get('mangledName') and len(TU.params(f)) == nargs]
        if fs:
            return eng.call_fn(fs[0], lv, [], st, n)
        rec = eng.record(cls)
        bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in (rec or {}).get('bases', [])]
        base = eng.record(E.strip_type(bases[0])) if bases else None
        cls = base.get('_qname') if base else None
    raise Unsupported('iterator operation %s of %s' % (name, v.cls))


def iter_differ(eng, st, a, b, n):
    """a != b, both lvalues"""
    va, vb = eng.load(st, a), eng.load(st, b)
    if isinstance(va, Ptr) and isinstance(vb, Ptr):
        if va.lv is None or not va.lv.same(vb.lv):
            raise Unsupported('iterators of different ranges')
        yield st, va.off != vb.off
        return
    fs = [f for q, l in eng.tu.funcs.items() if q.split('::')[-1] == 'operator!=' for f in l
          if TU.body(f) is not None and f.get('mangledName') and len(TU.params(f)) == 2 and 'frame_iterator_base' in f['mangledName']]
    if not fs:
        raise Unsupported('comparison of iterators')
    for o in eng.call_fn(fs[0], None, [a, b], st, n):
        yield o


def iter_deref(eng, st, lv, n):
    v = eng.load(st, lv)
    if isinstance(v, Ptr):
        yield st, v.lv.elem(v.off)
    else:
        for o in iter_op(eng, st, lv, 'operator*', n):
            yield o


def iter_incr(eng, st, lv, n):
    v = eng.load(st, lv)
    if isinstance(v, Ptr):
        eng.storev(st, lv, Ptr(v.lv, z3.simplify(v.off + eng.A.const(1)), v.single))
        yield st, None
    else:
        for s1, r in iter_op(eng, st, lv, 'operator++', n):
            yield s1, (('throw', r) if isinstance(r, Throw) else None)


def f_accumulate(eng, st, vs, n, args):
    """for (; first != last; ++first) init = op(init, *first): a loop, of the accumulated value's type"""
    A = eng.A
    first, last = (st.alloc(eng.rv(st, v), w) for v, w in zip(vs[:2], ('first', 'last')))
    t = E.strip_type(E.qt(n))
    op = eng.rv(st, vs[3]) if len(vs) > 3 else None
    if op is None:
        raise Unsupported('accumulate without an operation')
    init = eng.rv(st, vs[2])
    narrow = A.mode == 'int' and t == 'int'     # kept as a number, with the obligation that it fits
    acc = st.alloc(eng.conv(init, 'int', 'unsigned long') if narrow else init, 'accumulated')
    pt = E.strip_type(E.qt(TU.params(op.node)[0]))

    def cond(s):
        return iter_differ(eng, s, first, last, n)

    def body(s):
        for s1, e in iter_deref(eng, s, first, n):
            if isinstance(e, Throw):
                yield s1, ('throw', e)
                continue
            a = eng.load(s1, acc)
            for s2, r in call_closure(eng, s1, op, [a if narrow else eng.conv(a, t, pt), e], n):
                if isinstance(r, Throw):
                    yield s2, ('throw', r)
                    continue
                r = eng.rv(s2, r)
                if narrow:
                    eng.oblige(s2, 'accumulated value fits its type', z3.And(r >= 0, r < (1 << 31)), n)
                eng.storev(s2, acc, r if narrow else eng.conv(r, pt, t))
                yield s2, None

    def inc(s):
        return iter_incr(eng, s, first, n)
    for s1, out in eng.loop(n, st, cond, inc, body):
        if out is not None:
            yield s1, out[1]
            continue
        a = eng.load(s1, acc)
        if narrow:
            r = z3.BitVec(fresh_name('accumulated'), 32)
            s1.assume(eng.conv(r, 'int', 'unsigned long') == a)
            a = r
        yield s1, a


def f_some(universal):
    """any_of, all_of: the predicate, which must have no effects, holds of some (every) element"""
    def f(eng, st, vs, n, args):
        A = eng.A
        first, last = (st.alloc(eng.rv(st, v), w) for v, w in zip(vs[:2], ('first', 'last')))
        op = eng.rv(st, vs[2])

        def ptr(v):
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Struct) and isinstance(v.f.get('p_'), Ptr):
                return v.f['p_']
            raise Unsupported('iterator %r' % (v,))

        def at(i):
            v = eng.load(st, first)
            p = ptr(v)
            q = Ptr(p.lv, i, p.single)
            return q if v is p else v.set('p_', q)
        lo, hi = ptr(eng.load(st, first)).off, ptr(eng.load(st, last)).off
        k = A.fresh('element')
        s = st.clone()
        s.assume(z3.And(A.le(lo, k), A.lt(k, hi)))
        cell = s.alloc(at(k), 'element')
        m = len(s.pc)
        outs = []
        for s1, e in iter_deref(eng, s, cell, n):
            for s2, r in call_closure(eng, s1, op, [e], n):
                if isinstance(r, Throw):
                    raise Unsupported('predicate that throws')
                outs.append((s2.pc[m:], eng.to_bool(eng.rv(s2, r))))
        if len(outs) != 1 or any(isinstance(p, FA) for p in outs[0][0]):
            raise Unsupported('predicate with branches')
        P = lambda j: z3.substitute(outs[0][1], (k, j))
        b = z3.Bool(fresh_name('all' if universal else 'any'))
        w = A.fresh('which')
        st.add_T(w)
        here = z3.And(A.le(lo, w), A.lt(w, hi))
        if universal:
            st.assume(z3.Implies(z3.Not(b), z3.And(here, z3.Not(P(w)))))
            st.assume(FA(lambda j: z3.Implies(z3.And(b, A.le(lo, j), A.lt(j, hi)), P(j))))
        else:
            st.assume(z3.Implies(b, z3.And(here, P(w))))
            st.assume(FA(lambda j: z3.Implies(z3.And(z3.Not(b), A.le(lo, j), A.lt(j, hi)), z3.Not(P(j)))))
        yield st, b
    return f


FREE.update({'accumulate': f_accumulate, 'any_of': f_some(False), 'all_of': f_some(True)})


def free_function(eng, name, n, ref):
    if name in eng.ext_models:
        return eng.ext_models[name]
    return FREE.get(name)


def float_to_int(eng, st, v, t, n):
    """floor(log2(x) / c) with c constant: exact for the integers reached (trusted axiom)"""
    x = v
    if isinstance(x, Opaque) and x.name == 'floor':
        x = x.args[0]
        div = 1.0
        add = 0
        if isinstance(x, Opaque) and x.name == 'f/' and isinstance(x.args[1], Opaque) and x.args[1].name == 'float':
            div = x.args[1].args[0]
            x = x.args[0]
        if isinstance(x, Opaque) and x.name == 'log2' and div == int(div):
            y = x.args[0]
            if isinstance(y, Opaque) and y.name == 'itof' and z3.is_bv(y.args[0]):
                b = y.args[0]
                W = b.size()
                eng.assumptions.add('for integers 1 <= n < 2^%d, floor(log2(n)/%g) computed in double precision is the exact integer' % (min(W, 32), div))
                eng.oblige(st, 'log2 of a positive integer below 2^32',
                           z3.And(b != 0, z3.ULE(b, z3.BitVecVal(0xffffffff, W))), n)
                tw, ts = eng.itype(t)
                if eng.A.mode != 'bv' and tw == 64:
                    raise Unsupported('floor in integer mode')
                r = z3.BitVecVal(0, tw)
                for bit in range(min(W, 32)):
                    r = z3.If(z3.UGE(b, z3.BitVecVal(1 << bit, W)), z3.BitVecVal(bit // int(div), tw), r)
                return r
    raise Unsupported('floating point conversion')
