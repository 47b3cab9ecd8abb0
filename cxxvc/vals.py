"""Values, index arithmetic and states of the symbolic executor."""
import z3
from .cast import Unsupported

_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


VALUE32 = z3.Function('value_of_word', z3.BitVecSort(32), z3.IntSort())
WORD32 = z3.Function('word_of_value', z3.IntSort(), z3.BitVecSort(32))


class Arith:
    """Arithmetic of 64-bit quantities: exact bit-vectors ('bv') or integers with explicit
    wrap-around ('int')."""

    def __init__(self, mode):
        self.mode = mode
        self.sort = z3.BitVecSort(64) if mode == 'bv' else z3.IntSort()

    def const(self, v):
        return z3.BitVecVal(v, 64) if self.mode == 'bv' else z3.IntVal(v)

    def fresh(self, p):
        return z3.Const(fresh_name(p), self.sort)

    # -- mathematical index operations (offsets, lengths; signed, no wrap needed)
    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def is_const(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        if z3.is_int_value(t):
            return t.as_long()
        return None

    # -- C++ 64-bit arithmetic
    def wrap(self, t, signed):
        if self.mode == 'bv':
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            v = t.as_long() % (1 << 64)
            if signed and v >= 1 << 63:
                v -= 1 << 64
            return z3.IntVal(v)
        M = z3.IntVal(1 << 64)
        if signed:
            lo, hi = z3.IntVal(-(1 << 63)), z3.IntVal((1 << 63) - 1)
        else:
            lo, hi = z3.IntVal(0), z3.IntVal((1 << 64) - 1)
        return z3.If(t > hi, t - M, z3.If(t < lo, t + M, t))

    def in_range(self, t, signed):
        if self.mode == 'bv':
            return z3.BoolVal(True)
        if signed:
            return z3.And(t >= -(1 << 63), t <= (1 << 63) - 1)
        return z3.And(t >= 0, t <= (1 << 64) - 1)

    def resign(self, t, signed):
        """reinterpret a 64-bit value in the other signedness"""
        if self.mode == 'bv':
            return t
        return self.wrap(t, signed)

    def cmp(self, op, a, b, signed):
        if self.mode == 'bv' and not signed:
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        return {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
                '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op](a, b)

    # the value of a 32-bit word as a function the solver knows by its range; its equation is added where a model violates it
    lazy_value = False
    lazy_word = False       # likewise the word of a value

    def from_bv(self, v, signed):
        """widen an n<64-bit vector"""
        n = v.size()
        if self.mode == 'bv':
            if n == 64:
                return v
            return z3.SignExt(64 - n, v) if signed else z3.ZeroExt(64 - n, v)
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return z3.IntVal(v.as_signed_long() if signed else v.as_long())
        if n == 32 and not signed and self.lazy_value:
            return VALUE32(v)
        return z3.BV2Int(v, is_signed=signed)

    def to_bv(self, t, n):
        if self.mode == 'bv':
            return z3.Extract(n - 1, 0, t) if n < 64 else t
        c = self.is_const(t)
        if c is not None:
            return z3.BitVecVal(c, n)
        if n == 32 and z3.is_app(t) and t.decl().eq(VALUE32):
            return t.arg(0)
        if n == 32 and self.lazy_word:
            return WORD32(t)
        return z3.Int2BV(t, n)


class LV:
    """An lvalue: a store cell and a path of fields / element indices."""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def field(self, f):
        return LV(self.cell, self.path + (f,))

    def elem(self, i):
        return LV(self.cell, self.path + (('i', i),))

    def key(self):
        return (self.cell, tuple(p if isinstance(p, str) else ('i', p[1].sexpr()) for p in self.path))

    def same(self, o):
        if self.cell != o.cell or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if isinstance(a, str) != isinstance(b, str):
                return False
            if isinstance(a, str):
                if a != b:
                    return False
            elif not a[1].eq(b[1]):
                return False
        return True

    def __repr__(self):
        return 'LV(%s%r)' % (self.cell, self.path)


class Ptr:
    """Pointer or iterator: container lvalue and offset.  lv None: null pointer.
    single: points to a non-sequence object."""
    __slots__ = ('lv', 'off', 'single')

    def __init__(self, lv, off, single=False):
        self.lv = lv
        self.off = off
        self.single = single

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.lv, self.off)


class View(Ptr):
    """Pointer to an integer of w bits laid over the bytes of a sequence, lowest first; can only be read through"""
    __slots__ = ('w',)

    def __init__(self, lv, off, w):
        Ptr.__init__(self, lv, off)
        self.w = w


class Seq:
    """Immutable sequence of bit-vectors of width ew (or arbitrary values, ew=None)."""
    __slots__ = ('sel', 'len', 'ew', 'kind', 'over', 'signed', 'dim')

    def __init__(self, sel, ln, ew, kind, over=None, signed=False, dim=None):
        self.sel = sel      # function of an index term
        self.len = ln
        self.ew = ew
        self.kind = kind    # 'string', 'vector', 'array'
        self.over = over or {}   # concrete index -> value
        self.dim = dim
        self.signed = signed

    def get(self, A, i):
        c = A.is_const(i)
        if c is not None:
            if c in self.over:
                return self.over[c]
            return self.sel(A.const(c))
        r = d = self.sel(i)
        many = len(self.over) > 16 and z3.is_bv_value(d)
        for k, v in self.over.items():
            if many and z3.simplify(v).eq(d):
                continue
            r = z3.If(i == A.const(k), v, r)
        return r

    def set(self, A, i, v):
        c = A.is_const(i)
        if c is not None:
            o = dict(self.over)
            o[c] = v
            return Seq(self.sel, self.len, self.ew, self.kind, o, self.signed, self.dim)
        return Seq(lambda j, s=self, i=i, v=v: z3.If(j == i, v, s.get(A, j)), self.len, self.ew, self.kind, None, self.signed, self.dim)

    def with_len(self, n):
        return Seq(self.sel, n, self.ew, self.kind, self.over, self.signed, self.dim)

    def fn(self, A):
        return lambda i: self.get(A, i)


def seq_concat(A, a, b):
    la, lb = A.is_const(a.len), A.is_const(b.len)
    if lb is not None and lb <= 64:
        s = a
        if la is not None:
            o = dict(a.over)
            for d in range(lb):
                o[la + d] = b.get(A, A.const(d))
            return Seq(a.sel, A.const(la + lb), a.ew, a.kind, o, a.signed)

        def sel(j, a=a, b=b, lb=lb):
            r = a.get(A, j)
            for d in range(lb):
                r = z3.If(j == a.len + A.const(d), b.get(A, A.const(d)), r)
            return r
        return Seq(sel, z3.simplify(a.len + A.const(lb)), a.ew, a.kind, None, a.signed)
    return Seq(lambda j: z3.If(A.lt(j, a.len), a.get(A, j), b.get(A, j - a.len)),
               z3.simplify(a.len + b.len), a.ew, a.kind, None, a.signed)


def seq_const(A, bs, kind='array', ew=8):
    """from python ints (or bit-vector terms)"""
    over = {i: (z3.BitVecVal(b, ew) if isinstance(b, int) else b) for i, b in enumerate(bs)}
    return Seq(lambda j: z3.BitVecVal(0, ew), A.const(len(over)), ew, kind, over)


def seq_sym(A, name, ln, ew=8, kind='vector'):
    f = z3.Function(name, A.sort, z3.BitVecSort(ew))
    return Seq(lambda j: f(j), ln, ew, kind)


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __repr__(self):
        return 'Struct(%s)' % self.cls


class Stream(Struct):
    """std stream: fields data(Seq), pos, st(BV32), exc(BV32), out(Seq), fmt fields"""
    pass


class Tup(Struct):
    pass


class Opt(Struct):
    """optional: has (Bool), val"""
    pass


class Closure:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class BackInserter:
    def __init__(self, lv):
        self.lv = lv


class Opaque:
    def __init__(self, name, *args):
        self.name, self.args = name, args

    def __repr__(self):
        return 'Opaque(%s,%r)' % (self.name, self.args)


class FnRef:
    def __init__(self, node, ref):
        self.node, self.ref = node, ref


class Throw:
    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val

    def __repr__(self):
        return 'Throw(%s)' % self.ty


class FA:
    """Universally quantified fact, instantiated at the path's index terms."""

    def __init__(self, fn, name='', arity=1, only=None):
        self.fn, self.name, self.arity, self.only = fn, name, arity, only     # only: which terms are worth an instance


class St:
    """Execution state of one path."""
    __slots__ = ('store', 'env', 'this', 'pc', 'T', 'ghost', 'ret_lv')

    def __init__(self):
        self.store = {}
        self.env = {}
        self.this = None
        self.pc = []
        self.T = []
        self.ghost = {}
        self.ret_lv = None

    def clone(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.this = self.this
        s.pc = list(self.pc)
        s.T = list(self.T)
        s.ghost = dict(self.ghost)
        s.ret_lv = self.ret_lv
        return s

    def assume(self, c):
        if isinstance(c, FA):
            self.pc.append(c)
            return
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.pc.append(c)

    def add_T(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t) or z3.is_int_value(t):
            return
        i = t.get_id()
        for x in self.T:
            if x.get_id() == i:
                return
        self.T.append(t)

    def alloc(self, val, name='c'):
        c = fresh_name(name)
        self.store[c] = val
        return LV(c)
