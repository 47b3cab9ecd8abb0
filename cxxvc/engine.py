"""Symbolic execution of the clang AST and generation of proof obligations."""
import re, time, os
import z3
from .cast import TU, Unsupported
from .vals import *

INT_TYPES = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'wchar_t': (32, True), 'char16_t': (16, False),
    'char32_t': (32, False), 'size_t': (64, False), 'std::size_t': (64, False), 'ptrdiff_t': (64, True),
    'std::ptrdiff_t': (64, True), 'uint8_t': (8, False), 'std::uint8_t': (8, False),
    'std::uint32_t': (32, False), 'uint32_t': (32, False), 'std::streamsize': (64, True), 'ssize_t': (64, True),
    'std::uint16_t': (16, False), 'uint16_t': (16, False), 'std::streamoff': (64, True),
    'std::uint64_t': (64, False), 'uint64_t': (64, False), 'std::int64_t': (64, True), 'int64_t': (64, True),
    'std::_Ios_Iostate': (32, True), 'std::_Ios_Fmtflags': (32, True), 'std::_Ios_Openmode': (32, True),
    'std::_Ios_Seekdir': (32, True), '_Ios_Iostate': (32, True), '_Ios_Openmode': (32, True), '_Ios_Seekdir': (32, True),
    'std::ios_base::iostate': (32, True), 'std::ios::iostate': (32, True), 'ios_base::iostate': (32, True),
    'std::fpos<__mbstate_t>': (64, True), 'std::streampos': (64, True), 'std::ios_base::seekdir': (32, True), 'std::byte': (8, False),
}
IOS = {'badbit': 1, 'eofbit': 2, 'failbit': 4, 'goodbit': 0}
BAD, EOFB, FAIL = 1, 2, 4
STD_EXC = {  # name -> bases
    'std::ios_base::failure': ['std::system_error', 'std::runtime_error', 'std::exception'],
    'std::invalid_argument': ['std::logic_error', 'std::exception'],
    'std::domain_error': ['std::logic_error', 'std::exception'],
    'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::length_error': ['std::logic_error', 'std::exception'],
    'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'],
    'std::system_error': ['std::runtime_error', 'std::exception'], 'std::bad_alloc': ['std::exception'],
    'std::bad_array_new_length': ['std::bad_alloc', 'std::exception'],
    'std::exception': [],
}


def strip_type(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(w):
                t = t[len(w):]
        for w in (' const', ' volatile', '*const'):
            if t.endswith(w):
                t = t[:-len(w)] + ('*' if w[0] == '*' else '')
        if t == o:
            return t


def qt(n):
    """the desugared type of a node"""
    ty = n.get('type', {})
    return ty.get('desugaredQualType') or ty.get('qualType') or ''


def is_ref_type(t):
    return t.rstrip().endswith('&')


class Obligation:
    def __init__(self, name, pc, T, goal, where, fn, kind='post'):
        self.name, self.pc, self.T, self.goal, self.where, self.fn, self.kind = name, pc, T, goal, where, fn, kind
        self.status = None
        self.model = None
        self.time = 0.0
        self.skolems = []


class LoopInst:
    def __init__(self, key, where):
        self.key = key
        self.where = where
        self.sym = z3.Bool(fresh_name('INV_' + key))
        self.head = None
        self.head_T = []
        self.cands = []     # (name, fn(St[,j])->Bool, arity)
        self.measures = []


class Edge:
    def __init__(self, inst, kind, st):
        self.inst, self.kind, self.st = inst, kind, st


class Engine:
    def __init__(self, tu, mode='bv', contracts=None, models=None, loops=None, unroll=0, fname=''):
        self.tu = tu
        self.A = Arith(mode)
        self.contracts = contracts or {}
        self.loops = loops or (lambda *a: None)
        self.unroll = unroll
        self.recs = []          # obligations and loop edges, in order
        self.loop_insts = {}
        self.globals = {}
        self.fname = fname
        self.depth = 0
        self.axioms = []        # FA / Bool facts about spec functions (proved as lemmas)
        self.term_gens = []     # functions of the instantiation terms giving further ones
        self.assumptions = set()
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.stats = {'feas': 0, 'paths': 0}
        self.abstract_methods = {}
        self.shared_names = {}
        self.any = False         # whether members of new objects have any values
        self.model_overrides = {}
        self.ext_models = {}
        self.loop_ctr = {}
        self.curfn = []
        self.npaths_limit = 20000
        from . import models as M
        self.M = M

    # ------------------------------------------------------------------ utilities
    def mark(self):
        return len(self.recs)

    def rollback(self, m):
        del self.recs[m:]

    def where(self, n):
        return '%s:%s' % (os.path.basename(n.get('_file', '') or ''), n.get('_line', '?'))

    def oblige(self, st, name, goal, node=None, kind='safety'):
        g = z3.simplify(goal) if not isinstance(goal, FA) else goal
        o = Obligation(name, list(st.pc), list(st.T), g, self.where(node) if node else '', self.fname, kind)
        if not isinstance(goal, FA) and z3.is_true(g):
            o.status = 'proved'
        self.recs.append(o)
        return o

    def feasible(self, st, cond=None):
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
        self.stats['feas'] += 1
        s = z3.SimpleSolver()
        s.set('timeout', 1500)
        for p in st.pc:
            if not isinstance(p, FA):
                s.add(p)
        if cond is not None:
            s.add(c)
        return s.check() != z3.unsat

    def fork(self, st, cond):
        """yield (st, True/False) for the feasible outcomes of a Bool term"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            yield st, True
            return
        if z3.is_false(c):
            yield st, False
            return
        t_ok = self.feasible(st, c)
        f_ok = self.feasible(st, z3.Not(c))
        if t_ok and f_ok:
            s2 = st.clone()
            st.assume(c)
            yield st, True
            s2.assume(z3.Not(c))
            yield s2, False
        elif t_ok:
            st.assume(c)
            yield st, True
        elif f_ok:
            st.assume(z3.Not(c))
            yield st, False

    # ------------------------------------------------------------------ types
    def itype(self, t):
        t = strip_type(t)
        if t in INT_TYPES:
            return INT_TYPES[t]
        for q, e in self.tu.enums.items():
            if q == t or q.endswith('::' + t) and len(t) > 3 or t.endswith('::' + q):
                return INT_TYPES.get(strip_type(e['']), (32, False if e[''].startswith('unsigned') else True))
        return None

    def is_enum(self, t):
        t = strip_type(t)
        return t not in INT_TYPES and self.itype(t) is not None

    def ctype(self, n):
        ty = n.get('type', {})
        for k in ('desugaredQualType', 'qualType'):
            if ty.get(k) and self.itype(ty[k]):
                return ty[k]
        return qt(n)

    def const_int(self, v, t):
        w, s = self.itype(t)
        if w == 1:
            return z3.BoolVal(bool(v))
        if w == 64:
            return self.A.wrap(self.A.const(v), s)
        return z3.BitVecVal(v, w)

    def fresh_int(self, t, name, st=None):
        w, s = self.itype(t)
        if w == 1:
            return z3.Bool(fresh_name(name))
        if w == 64:
            x = self.A.fresh(name)
            if st is not None:
                st.assume(self.A.in_range(x, s))
            return x
        return z3.BitVec(fresh_name(name), w)

    def conv(self, v, frm, to):
        fi, ti = self.itype(frm), self.itype(to)
        if fi is None or ti is None:
            raise Unsupported('conversion %s -> %s' % (frm, to))
        (fw, fs), (tw, ts) = fi, ti
        A = self.A
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        if tw == 1:
            return self.to_bool(v)
        if z3.is_bool(v):
            if tw == 64:
                return z3.If(v, A.const(1), A.const(0))
            return z3.If(v, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
        if fw == 64 and tw == 64:
            return A.resign(v, ts) if fs != ts else v
        if fw == 64:
            return A.to_bv(v, tw)
        if tw == 64:
            r = A.from_bv(v, fs)
            if fs and not ts:
                r = A.resign(r, False)
            return r
        if tw > fw:
            return z3.SignExt(tw - fw, v) if fs else z3.ZeroExt(tw - fw, v)
        if tw < fw:
            return z3.Extract(tw - 1, 0, v)
        return v

    def to_bool(self, v):
        if z3.is_bool(v):
            return v
        if isinstance(v, Ptr):
            return z3.BoolVal(v.lv is not None)
        if z3.is_expr(v):
            return v != 0
        if isinstance(v, Opaque) and v.name == 'nullable':
            return v.args[0]
        raise Unsupported('to bool: %r' % (v,))

    def ix(self, v, t):
        """an integer value as an index term (mathematical, signed)"""
        if z3.is_bool(v):
            return z3.If(v, self.A.const(1), self.A.const(0))
        w, s = self.itype(t)
        if w == 64:
            if not s and self.A.mode == 'int':
                # ptr + (size_t)-1 behaves as ptr - 1
                return self.A.wrap(v, True)
            return v
        return self.A.from_bv(v, s)

    # ------------------------------------------------------------------ store
    def load(self, st, lv, node=None, check=True):
        v = st.store.get(lv.cell)
        if v is None:
            raise Unsupported('load of unknown cell %s' % lv.cell)
        for p in lv.path:
            if isinstance(p, str):
                if not isinstance(v, Struct):
                    raise Unsupported('field %s of %r' % (p, v))
                if p not in v.f:
                    raise Unsupported('no field %s in %s' % (p, v.cls))
                v = v.f[p]
            elif p[0] == 'b':
                v = self.M.scalar_bytes(v)[self.byte_no(st, v, p[1], node)]
            else:
                if not isinstance(v, Seq):
                    raise Unsupported('element of %r' % (v,))
                st.add_T(p[1])
                if check:
                    hi = v.len + self.A.const(1) if v.kind == 'string' else v.len
                    self.oblige(st, 'read within bounds', z3.And(self.A.le(self.A.const(0), p[1]), self.A.lt(p[1], hi)), node)
                if v.kind == 'string':
                    c1, c2 = self.A.is_const(p[1]), self.A.is_const(v.len)
                    if c1 is not None and c2 is not None:
                        v = z3.BitVecVal(0, v.ew) if c1 == c2 else v.get(self.A, p[1])
                    elif z3.is_true(z3.simplify(p[1] == v.len)):
                        v = z3.BitVecVal(0, v.ew)
                    else:
                        v = z3.If(p[1] == v.len, z3.BitVecVal(0, v.ew), v.get(self.A, p[1]))
                else:
                    v = v.get(self.A, p[1])
        return v

    def storev(self, st, lv, val, node=None):
        def upd(v, path):
            if not path:
                return val
            p = path[0]
            if isinstance(p, str):
                if not isinstance(v, Struct):
                    raise Unsupported('store field %s of %r' % (p, v))
                return type(v)(v.cls, {**v.f, p: upd(v.f.get(p), path[1:])})
            if p[0] == 'b':
                bs = self.M.scalar_bytes(v)
                bs[self.byte_no(st, v, p[1], node)] = val
                return z3.simplify(z3.Concat(*reversed(bs))) if len(bs) > 1 else bs[0]
            if not isinstance(v, Seq):
                raise Unsupported('store element of %r' % (v,))
            st.add_T(p[1])
            self.oblige(st, 'write within bounds', z3.And(self.A.le(self.A.const(0), p[1]), self.A.lt(p[1], v.len)), node)
            nv = upd(v.get(self.A, p[1]), path[1:]) if path[1:] else val
            return v.set(self.A, p[1], nv)
        st.store[lv.cell] = upd(st.store.get(lv.cell), lv.path)

    def byte_no(self, st, v, i, node):
        c = self.A.is_const(i)
        if c is None or not z3.is_bv(v):
            raise Unsupported('byte of a scalar at a symbolic offset')
        self.oblige(st, 'byte within the object', z3.BoolVal(0 <= c < v.size() // 8), node)
        if not 0 <= c < v.size() // 8:
            raise Unsupported('byte outside the object')
        return c

    def rv(self, st, v, node=None):
        """value of a possibly-lvalue result"""
        if isinstance(v, LV):
            return self.load(st, v, node)
        return v

    def view(self, st, p, node):
        """pointer p converted to the type of the node"""
        if not isinstance(p, Ptr) or p.lv is None or p.single:
            return p
        v = self.load(st, p.lv, check=False)
        m = re.match(r'^(.*\S)\s*\*(?:\s*const)?$', strip_type(self.ctype(node)))
        i = m and self.itype(m.group(1))
        if not i or not isinstance(v, Seq) or not isinstance(v.ew, int) or i[0] == v.ew:
            return Ptr(p.lv, p.off) if isinstance(p, View) else p
        if v.ew != 8 or i[0] not in (16, 32):
            raise Unsupported('pointer to %d bits as %s' % (v.ew, m.group(1)))
        return View(p.lv, p.off, i[0])

    def deref(self, st, p, node=None):
        if isinstance(p, View):
            v, k = self.load(st, p.lv, check=False), p.w // 8
            self.oblige(st, 'read within bounds', z3.And(self.A.le(self.A.const(0), p.off), self.A.le(p.off, v.len), self.A.le(p.off + k, v.len)), node)
            return z3.Concat(*[v.get(self.A, z3.simplify(p.off + i)) for i in reversed(range(k))])
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.lv is None:
            self.oblige(st, 'null dereference', z3.BoolVal(False), node)
            raise Unsupported('null dereference')
        if p.single and node is not None and (self.itype(qt(node)) or (0,))[0] == 8:
            v = self.load(st, p.lv, check=False)
            if z3.is_bv(v) and v.size() > 8:
                return LV(p.lv.cell, p.lv.path + (('b', p.off),))
        if p.single:
            self.oblige(st, 'pointer to object', p.off == self.A.const(0), node)
            return p.lv
        return p.lv.elem(p.off)

    def no_view(self, *ps):
        for p in ps:
            if isinstance(p, View):
                raise Unsupported('arithmetic on a converted pointer')

    def addr(self, st, lv):
        if lv.path and not isinstance(lv.path[-1], str):
            return Ptr(LV(lv.cell, lv.path[:-1]), lv.path[-1][1])
        v = self.load(st, lv, check=False)
        return Ptr(lv, self.A.const(0), single=True)

    # ------------------------------------------------------------------ defaults
    def elem_width(self, t):
        m = self.itype(t)
        if m is None:
            raise Unsupported('element type ' + t)
        return m[0]

    def default_value(self, st, t, name='v', init=False):
        """value of a default-initialised object of type t (scalars arbitrary)"""
        t0 = strip_type(t)
        if self.itype(t0):
            return self.const_int(0, t0) if init else self.fresh_int(t0, name, st)
        m = re.match(r'^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$', t0)
        if m:
            n = int(m.group(2))
            et = m.group(1)
            dims = [int(x) for x in re.findall(r'\d+', m.group(3))]
            for d in dims:
                n *= d
            if self.itype(et) is None and not dims and n <= 8:      # array of objects
                return Tup('objects', {str(i): self.default_value(st, et, '%s[%d]' % (name, i), init) for i in range(n)})
            w = self.elem_width(et)
            if w == 64 or w == 1:
                raise Unsupported('array of ' + et)
            s = seq_const(self.A, [0] * n, 'array', w) if init else seq_sym(self.A, fresh_name(name), self.A.const(n), w, 'array')
            s.signed = self.itype(et)[1]
            s.dim = dims
            return s
        if t0.endswith('*'):
            return Ptr(None, self.A.const(0))
        m = self.M.class_kind(t0)
        if self.any and m in ('string', 'vector'):
            n = self.A.fresh(name + '_len')
            st.assume(z3.And(self.A.le(self.A.const(0), n), self.A.lt(n, self.A.const(1 << 40))))
            st.add_T(n)
            return seq_sym(self.A, fresh_name(name), n, 8 if m == 'string' else self.elem_width(self.M.targ(t0, 0)), m)
        if self.any and m == 'optional':
            return Opt('optional', {'has': z3.Bool(fresh_name(name + '_has')), 'val': self.default_value(st, self.M.targ(t0, 0), name)})
        if m == 'string':
            return seq_const(self.A, [], 'string')
        if m == 'vector':
            return seq_const(self.A, [], 'vector', self.elem_width(self.M.targ(t0, 0)))
        if m == 'array':
            n = int(re.sub(r'[^0-9]', '', self.M.targ(t0, 1)))
            w = self.elem_width(self.M.targ(t0, 0))
            return seq_const(self.A, [0] * n, 'array', w) if init else seq_sym(self.A, fresh_name(name), self.A.const(n), w, 'array')
        if m == 'optional':
            return Opt('optional', {'has': z3.BoolVal(False), 'val': None})
        if m == 'smartptr':
            return Ptr(None, self.A.const(0))
        if m == 'fpos':
            return self.A.const(0)
        if m == 'sstream':
            return self.M.new_sstream(self, st)
        if m in ('pair', 'tuple'):
            args = self.M.targs(t0)
            return Tup(m, {str(i): self.default_value(st, a, name, init) for i, a in enumerate(args)})
        r = self.record(t0)
        if r is not None:
            return self.default_struct(st, r, name)
        if m:
            return Opaque('default' + (' ' + name if self.any else ''), t0)
        raise Unsupported('default value of type ' + t0)

    def record(self, t):
        t = strip_type(t)
        if t in self.tu.records:
            return self.tu.records[t]
        c = [q for q in self.tu.records if q.endswith('::' + t)]
        if len(c) == 1:
            return self.tu.records[c[0]]
        if '<' in t and not t.startswith(('std::', 'boost::', '__gnu')):     # the instantiation, if there is one only
            return self.tu.records.get(t[:t.index('<')])
        return None

    def default_struct(self, st, rec, name):
        f = {}
        self._fields(st, rec, f, name)
        return Struct(rec['_qname'], f)

    def any_struct(self, st, rec, name):
        """an object whose members have any values: texts and vectors of any contents, optional members there or not"""
        self.any = True
        try:
            return self.default_struct(st, rec, name)
        finally:
            self.any = False

    def _fields(self, st, rec, f, name):
        for b in rec.get('bases', []) or []:
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            br = self.record(bt)
            if br is not None:
                self._fields(st, br, f, name)
        for c in rec.get('inner', []) or []:
            if c.get('kind') == 'FieldDecl':
                k = c['name']
                if k in f:                    # same name in another base
                    k += '@' + rec['_qname']
                    self.shared_names.setdefault(c['name'], set()).add(k)
                try:
                    f[k] = self.default_value(st, qt(c), name + '.' + c['name'])
                except Unsupported:
                    f[k] = Opaque('unmodelled' + (' ' + name + '.' + k if self.any else ''), qt(c))

    def field_key(self, st, lv, name, did):
        """key of a member, which may share its name with one of another base class"""
        d = self.tu.by_id.get(did) or {}
        k = name + '@' + d.get('_ctx', '')
        if d.get('_ctx') and k in self.shared_names.get(name, ()):
            v = self.load(st, lv, check=False)
            if isinstance(v, Struct) and k in v.f:
                return k
        return name

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'ev_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s at %s' % (n['kind'], self.where(n)))
        return m(n, st)

    def evs(self, nodes, st):
        """evaluate in order; yields (st, [values]) or (st, Throw)"""
        if not nodes:
            yield st, []
            return
        for s1, v in self.ev(nodes[0], st):
            if isinstance(v, Throw):
                yield s1, v
                continue
            for s2, rest in self.evs(nodes[1:], s1):
                if isinstance(rest, Throw):
                    yield s2, rest
                else:
                    yield s2, [v] + rest

    def kids(self, n):
        return [c for c in n.get('inner', []) or [] if c and c.get('kind') and not c['kind'].endswith('Attr')]

    def _pass(self, n, st):
        return self.ev(self.kids(n)[0], st)

    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_CXXRewrittenBinaryOperator = _pass
    ev_SubstNonTypeTemplateParmExpr = _pass

    def ev_SubstNonTypeTemplateParmExpr(self, n, st):
        k = [c for c in self.kids(n) if c['kind'].endswith('Literal') or c['kind'].endswith('Expr')]
        return self.ev(k[-1], st)

    def ev_ConstantExpr(self, n, st):
        return self._pass(n, st)

    def ev_FullExpr(self, n, st):
        return self._pass(n, st)

    def ev_IntegerLiteral(self, n, st):
        yield st, self.const_int(int(n['value']), self.ctype(n))

    def ev_CharacterLiteral(self, n, st):
        yield st, self.const_int(int(n['value']), self.ctype(n))

    def ev_CXXBoolLiteralExpr(self, n, st):
        yield st, z3.BoolVal(n['value'] in (True, 'true'))

    def ev_FloatingLiteral(self, n, st):
        yield st, Opaque('float', float(n['value']))

    def ev_CXXNullPtrLiteralExpr(self, n, st):
        yield st, Ptr(None, self.A.const(0))

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, n, st):
        bs = self.M.c_string(n['value']) + [0]
        key = 'str:' + repr(bs)
        if key not in st.store:
            st.store[key] = seq_const(self.A, bs, 'array')
        yield st, LV(key)

    def ev_CXXDefaultArgExpr(self, n, st):
        k = self.kids(n)
        if k:
            return self.ev(k[0], st)
        raise Unsupported('default argument')

    def ev_CXXDefaultInitExpr(self, n, st):
        k = self.kids(n)
        if k:
            return self.ev(k[0], st)
        raise Unsupported('default member initializer')

    def ev_ImplicitValueInitExpr(self, n, st):
        yield st, self.default_value(st, qt(n), 'zero', init=True)

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_CXXThisExpr(self, n, st):
        yield st, Ptr(st.this, self.A.const(0), single=True)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        at = n.get('argType', {})
        t = at.get('desugaredQualType') or at.get('qualType')
        if t is None:
            k = self.kids(n)
            t = qt(k[0])
        i = self.itype(t)
        if i:
            sz = max(1, i[0] // 8)
        else:
            m = re.match(r'^(.*?)\s*\[(\d+)\]$', strip_type(t))
            if not m or not self.itype(m.group(1)):
                raise Unsupported('sizeof ' + t)
            sz = self.itype(m.group(1))[0] // 8 * int(m.group(2))
        yield st, self.A.const(sz)

    def ev_DeclRefExpr(self, n, st):
        r = n['referencedDecl']
        rid, name, kind = r['id'], r.get('name'), r['kind']
        if kind == 'EnumConstantDecl':
            if rid in self.tu.enumconst:
                v, q = self.tu.enumconst[rid]
                yield st, self.const_int(v, self.ctype(n))
                return
            if name in self.M.ENUMS:
                yield st, self.const_int(self.M.ENUMS[name], self.ctype(n))
                return
            raise Unsupported('enumerator ' + str(name))
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            yield st, FnRef(self.tu.definition_of(rid, name, r.get('type', {}).get('qualType')), r)
            return
        if rid in st.env:
            yield st, st.env[rid]
            return
        if kind in ('VarDecl', 'BindingDecl'):
            for o in self.global_var(n, r, st):
                yield o
            return
        raise Unsupported('reference to %s %s' % (kind, name))

    def global_var(self, n, r, st):
        name = r.get('name')
        if name in IOS:
            c = st.alloc(z3.BitVecVal(IOS[name], 32), name)
            yield st, c
            return
        if name in ('beg', 'cur', 'end') and 'Seekdir' in (qt(n) + n['type'].get('qualType', '') + str(r.get('type'))) or \
           name in ('beg', 'cur', 'end') and 'seekdir' in str(r.get('type')):
            c = st.alloc(z3.BitVecVal({'beg': 0, 'cur': 1, 'end': 2}[name], 32), name)
            yield st, c
            return
        if name in ('binary', 'in', 'out', 'app', 'trunc', 'ate') and 'penmode' in str(r.get('type')):
            yield st, st.alloc(z3.BitVecVal({'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32}[name], 32), name)
            return
        if name == 'npos':
            yield st, st.alloc(self.A.wrap(self.A.const(-1), False), name)
            return
        if name == 'nullopt' or name == 'none' and 'none_t' in qt(n):
            yield st, st.alloc(Opt('optional', {'has': z3.BoolVal(False), 'val': None}), name)
            return
        key = 'g:' + r['id']
        if key in st.store:
            yield st, LV(key)
            return
        vn = self.tu.vars.get(r['id'])
        if vn is None and name not in self.tu.var_by_name:      # outside the namespaces loaded
            self.tu.load(name)
        if vn is None or not self._has_init(vn):
            c = [v for v in self.tu.var_by_name.get(name, []) if self._has_init(v)
                 and strip_type(qt(v)).replace(' ', '') in (strip_type(qt(n)).replace(' ', ''),)]
            if c:
                vn = c[0]
        if vn is None:
            raise Unsupported('variable ' + str(name))
        env, this = st.env, st.this
        st.env = {}
        for s1, v in self.init_var(vn, st):
            s1.env, s1.this = env, this
            if isinstance(v, Throw):
                yield s1, v
                continue
            s1.store[key] = self.rv(s1, v)
            yield s1, LV(key)

    def _has_init(self, vn):
        return any(c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) for c in vn.get('inner', []) or [])

    def ev_MemberExpr(self, n, st):
        k = self.kids(n)
        name = n.get('name', '')
        md = self.tu.by_id.get(n.get('referencedMemberDecl'))
        if md is not None and md.get('kind') == 'VarDecl':   # static data member
            fake = {'kind': 'DeclRefExpr', 'type': n['type'], 'referencedDecl': {'id': md['id'], 'name': name, 'kind': 'VarDecl', 'type': md.get('type')}}
            for o in self.global_var(fake, fake['referencedDecl'], st):
                yield o
            return
        if name in IOS and not k:
            yield st, st.alloc(z3.BitVecVal(IOS[name], 32), name)
            return
        for s1, b in self.ev(k[0], st):
            if isinstance(b, Throw):
                yield s1, b
                continue
            lv = self.obj_lv(s1, b, n)
            yield s1, lv.field(self.field_key(s1, lv, name, n.get('referencedMemberDecl')))

    def obj_lv(self, st, b, n):
        """lvalue of the object designated by a member base"""
        if n.get('isArrow'):
            if isinstance(b, LV):
                b = self.load(st, b)
            if isinstance(b, LV):
                return b
            return self.deref(st, b, n)
        if isinstance(b, LV):
            return b
        return st.alloc(b, 'tmp')

    def ev_ArraySubscriptExpr(self, n, st):
        a, b = self.kids(n)
        for s1, vs in self.evs([a, b], st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            p, i = vs
            bt = self.ctype(b)
            p = self.rv(s1, p, n)
            if not isinstance(p, Ptr):
                p, i, bt = self.rv(s1, i, n), p, self.ctype(a)
            self.no_view(p)
            i = self.ix(self.rv(s1, i, n), bt)
            dim = None
            if isinstance(p, Ptr) and p.lv is not None:
                base = self.load(s1, p.lv, check=False)
                if isinstance(base, Tup) and base.cls == 'objects' and not p.single:
                    for o in self.pick_object(s1, p.lv, base, z3.simplify(p.off + i), n):
                        yield o
                    continue
                if isinstance(base, Seq) and base.dim and re.search(r'\[\d+\]$', strip_type(qt(n))):
                    i = i * self.A.const(base.dim[0])
            yield s1, self.deref(s1, Ptr(p.lv, z3.simplify(p.off + i), p.single), n) if not p.single else \
                self.deref(s1, Ptr(p.lv, p.off + i, True), n)

    def pick_object(self, st, lv, base, i, n):
        """element of an array of objects: one path per element the index may mean"""
        A, k = self.A, len(base.f)
        self.oblige(st, 'index within the array', z3.And(A.le(A.const(0), i), A.lt(i, A.const(k))), n)
        rest = st
        for j in range(k):
            nxt = None
            for s, t in self.fork(rest, i == A.const(j)):
                if t:
                    yield s, lv.field(str(j))
                else:
                    nxt = s
            if nxt is None:
                return
            rest = nxt

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']
        k = self.kids(n)[0]
        for s1, v in self.ev(k, st):
            if isinstance(v, Throw):
                yield s1, v
                continue
            if op == '&':
                if isinstance(v, FnRef):
                    yield s1, v
                else:
                    yield s1, self.addr(s1, v)
            elif op == '*':
                v = self.rv(s1, v, n)
                if isinstance(v, FnRef):
                    yield s1, v
                else:
                    yield s1, self.deref(s1, v, n)
            elif op in ('++', '--'):
                old = self.load(s1, v, n)
                self.no_view(old)
                t = self.ctype(n)
                if isinstance(old, Ptr):
                    new = Ptr(old.lv, z3.simplify(old.off + self.A.const(1 if op == '++' else -1)), old.single)
                else:
                    new = self.arith('+' if op == '++' else '-', old, self.const_int(1, t), t, s1, n)
                self.storev(s1, v, new, n)
                yield s1, (old if n.get('isPostfix') else v)
            elif op == '!':
                yield s1, z3.Not(self.to_bool(self.rv(s1, v, n)))
            elif op == '-':
                t = self.ctype(n)
                if isinstance(v, Opaque):
                    yield s1, Opaque('fneg', v)
                else:
                    yield s1, self.arith('-', self.const_int(0, t), self.rv(s1, v), t, s1, n)
            elif op == '~':
                v = self.rv(s1, v)
                if z3.is_bv(v):
                    yield s1, ~v
                else:
                    raise Unsupported('~ on integer')
            elif op == '+':
                yield s1, self.rv(s1, v)
            else:
                raise Unsupported('unary ' + op)

    def arith(self, op, a, b, t, st, n, bt=None):
        w, s = self.itype(t)
        A = self.A
        if w == 1:
            raise Unsupported('bool arithmetic')
        if op in ('/', '%'):
            z = A.const(0) if w == 64 else z3.BitVecVal(0, w)
            self.oblige(st, 'division by zero', b != z, n)
        if w == 64 and A.mode == 'int':
            if op == '+':
                return A.wrap(a + b, s)
            if op == '-':
                return A.wrap(a - b, s)
            ca, cb = A.is_const(a), A.is_const(b)
            if op == '*':
                if ca is None and cb is None:
                    raise Unsupported('nonlinear 64-bit product')
                # exact for products below 2^64; otherwise reduced modulo 2^64
                r = a * b
                if s:
                    return A.wrap(r, s)
                return z3.If(z3.And(r >= 0, r < (1 << 64)), r, r % (1 << 64))
            if op in ('/', '%') and cb is None:
                # symbolic divisor: functions of the operands, with the usual bounds
                q, r = self.tdiv(a, b), self.tmod(a, b)
                for f in self.div_facts(a, b, q, r):
                    st.assume(f)
                return q if op == '/' else r
            if op == '/':
                if s:
                    q = z3.If(b > 0, (z3.If(a >= 0, a, -a)) / b, (z3.If(a >= 0, a, -a)) / (-b))
                    return z3.If((a >= 0) == (b > 0), q, -q)
                return a / b
            if op == '%':
                if s:
                    bb = z3.If(b > 0, b, -b)
                    return z3.If(a >= 0, a % bb, -((-a) % bb))
                return a % b
            if op == '>>':
                cb = self._shift_const(b)
                return a / A.const(1 << cb)
            if op == '<<':
                cb = self._shift_const(b)
                return (a * A.const(1 << cb)) % A.const(1 << 64)
            if op == '&':
                c, x = (cb, a) if cb is not None else (ca, b)
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return x % A.const(c + 1)
            raise Unsupported('64-bit %s in integer mode' % op)
        if op in ('<<', '>>'):
            if b.size() < a.size() if z3.is_bv(b) else False:
                b = z3.ZeroExt(a.size() - b.size(), b)
            elif z3.is_bv(b) and b.size() > a.size():
                b = z3.Extract(a.size() - 1, 0, b)
            self.oblige(st, 'shift amount in range', z3.ULT(b, z3.BitVecVal(w, w)), n)
            if op == '<<':
                return a << b
            return (a >> b) if s else z3.LShR(a, b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return a / b if s else z3.UDiv(a, b)
        if op == '%':
            return z3.SRem(a, b) if s else z3.URem(a, b)
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        raise Unsupported('operator ' + op)

    tdiv = staticmethod(z3.Function('tdiv', z3.IntSort(), z3.IntSort(), z3.IntSort()))
    tmod = staticmethod(z3.Function('tmod', z3.IntSort(), z3.IntSort(), z3.IntSort()))

    @staticmethod
    def div_facts(a, b, q, r):
        """division truncates: facts without products (a == q*b + r is used in lemmas only)"""
        return [z3.Implies(b > 0, z3.And(r < b, r > -b, z3.Implies(a >= 0, z3.And(q >= 0, q <= a, r >= 0, r <= a, q + r <= a)),
                                         z3.Implies(a <= 0, z3.And(q <= 0, q >= a, r <= 0, r >= a, q + r >= a)),
                                         z3.Implies(z3.And(a < b, a > -b), z3.And(q == 0, r == a)))),
                z3.Implies(b < 0, z3.And(r < -b, r > b))]

    def _shift_const(self, b):
        b = z3.simplify(b)
        if z3.is_bv_value(b):
            return b.as_long()
        c = self.A.is_const(b)
        if c is None:
            raise Unsupported('symbolic shift in integer mode')
        return c

    def compare(self, op, a, b, t, st, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(op, a, b, st, n)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of %r' % (a,))
        if isinstance(a, (Struct, Seq)) or isinstance(b, (Struct, Seq)):
            raise Unsupported('comparison of objects')
        if z3.is_bool(a) and z3.is_bool(b):
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            raise Unsupported('bool ' + op)
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        w, s = self.itype(t)
        if w == 64:
            return self.A.cmp(op, a, b, s)
        if s:
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)

    def cmp_ptr(self, op, a, b, st, n):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pointer comparison')
        if a.lv is None or b.lv is None:
            r = (a.lv is None) == (b.lv is None)
            if op in ('==', '!='):
                return z3.BoolVal(r if op == '==' else not r)
            raise Unsupported('null ordering')
        if not a.lv.same(b.lv):
            if op == '==':
                return z3.BoolVal(False)
            if op == '!=':
                return z3.BoolVal(True)
            raise Unsupported('comparison of pointers to different objects')
        A = self.A
        st.add_T(a.off)
        st.add_T(b.off)
        return {'==': lambda: a.off == b.off, '!=': lambda: a.off != b.off, '<': lambda: A.lt(a.off, b.off),
                '<=': lambda: A.le(a.off, b.off), '>': lambda: A.lt(b.off, a.off), '>=': lambda: A.le(b.off, a.off)}[op]()

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = self.kids(n)
        if op in ('&&', '||'):
            for o in self.ev_logic(op, l, r, st):
                yield o
            return
        if op == '=':
            # C++17: right operand first
            for s1, rv in self.ev(r, st):
                if isinstance(rv, Throw):
                    yield s1, rv
                    continue
                rv = self.rv(s1, rv, n)
                for s2, lv in self.ev(l, s1):
                    if isinstance(lv, Throw):
                        yield s2, lv
                        continue
                    self.assign(s2, lv, rv, n)
                    yield s2, lv
            return
        if op == ',':
            for s1, vs in self.evs([l, r], st):
                yield s1, (vs if isinstance(vs, Throw) else vs[1])
            return
        for s1, vs in self.evs([l, r], st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            a, b = self.rv(s1, vs[0], n), self.rv(s1, vs[1], n)
            yield s1, self.binop(op, a, b, self.ctype(l), self.ctype(r), self.ctype(n), s1, n)

    def assign(self, st, lv, val, n):
        if isinstance(lv, (BackInserter,)):
            self.M.back_insert(self, st, lv, val)
            return
        if not isinstance(lv, LV):
            raise Unsupported('assignment to %r' % (lv,))
        self.storev(st, lv, val, n)

    def binop(self, op, a, b, lt, rt, t, st, n):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b, lt, st, n)
        self.no_view(a, b)
        if isinstance(a, Ptr) and op in ('+', '-') and not isinstance(b, Ptr):
            d = self.ix(b, rt)
            return Ptr(a.lv, z3.simplify(a.off + d if op == '+' else a.off - d), a.single)
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.lv, z3.simplify(b.off + self.ix(a, lt)), b.single)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
            if a.lv is None or b.lv is None or not a.lv.same(b.lv):
                raise Unsupported('pointer difference')
            return self.A.wrap(a.off - b.off, True)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('f' + op, a, b)
        if op in ('<<', '>>') and (self.itype(lt)[0] == 64) != (self.itype(rt)[0] == 64):
            if self.A.mode == 'bv':
                b = self.conv(b, rt, lt)
        return self.arith(op, a, b, t, st, n, rt)

    def ev_logic(self, op, l, r, st):
        for s1, lv in self.ev(l, st):
            if isinstance(lv, Throw):
                yield s1, lv
                continue
            c = z3.simplify(self.to_bool(self.rv(s1, lv)))
            short = z3.is_false(c) if op == '&&' else z3.is_true(c)
            if short:
                yield s1, c
                continue
            go = c if op == '&&' else z3.Not(c)
            s2 = s1.clone()
            s2.assume(go)
            if not z3.is_true(z3.simplify(go)) and not self.feasible(s2):
                yield s1, z3.BoolVal(op == '||')
                continue
            base_store = dict(s2.store)
            npc = len(s2.pc)
            res = list(self.ev(r, s2))
            if len(res) == 1 and not isinstance(res[0][1], Throw) and self._same_store(base_store, res[0][0].store) \
               and len(res[0][0].pc) == npc:
                s3, rv = res[0]
                rb = self.to_bool(self.rv(s3, rv))
                for t in s3.T:
                    s1.add_T(t)
                for k, v in s3.store.items():
                    s1.store.setdefault(k, v)
                yield s1, (z3.And(c, rb) if op == '&&' else z3.Or(c, rb))
                continue
            # short-circuit outcome
            s4 = s1
            s4.assume(z3.Not(go))
            if self.feasible(s4):
                yield s4, z3.BoolVal(op == '||')
            for s3, rv in res:
                if isinstance(rv, Throw):
                    yield s3, rv
                else:
                    yield s3, self.to_bool(self.rv(s3, rv))

    @staticmethod
    def _same_store(a, b):
        for k, v in a.items():
            w = b.get(k)
            if w is v:
                continue
            if z3.is_expr(v) and z3.is_expr(w) and v.eq(w):
                continue
            return False
        return True

    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l, r = self.kids(n)
        lt, rt = self.ctype(l), self.ctype(r)
        ct = n.get('computeResultType', {})
        ct = ct.get('desugaredQualType') or ct.get('qualType') or lt
        clt = n.get('computeLHSType', {})
        clt = clt.get('desugaredQualType') or clt.get('qualType') or lt
        for s1, rv in self.ev(r, st):
            if isinstance(rv, Throw):
                yield s1, rv
                continue
            rv = self.rv(s1, rv, n)
            for s2, lv in self.ev(l, s1):
                if isinstance(lv, Throw):
                    yield s2, lv
                    continue
                old = self.load(s2, lv, n)
                if isinstance(old, Ptr):
                    new = self.binop(op, old, rv, lt, rt, lt, s2, n)
                else:
                    a = self.conv(old, lt, clt)
                    b = rv
                    if op in ('<<', '>>') and self.A.mode == 'bv' and self.itype(rt)[0] != self.itype(ct)[0]:
                        b = self.conv(rv, rt, ct)
                    new = self.conv(self.arith(op, a, b, ct, s2, n, rt), ct, lt)
                self.storev(s2, lv, new, n)
                yield s2, lv

    def ev_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        for s1, cv in self.ev(c, st):
            if isinstance(cv, Throw):
                yield s1, cv
                continue
            cond = z3.simplify(self.to_bool(self.rv(s1, cv)))
            if not z3.is_true(cond) and not z3.is_false(cond):
                # merge pure scalar alternatives
                m = self.mark()
                sa, sb = s1.clone(), s1.clone()
                sa.assume(cond)
                sb.assume(z3.Not(cond))
                if self.feasible(sa) and self.feasible(sb):
                    ra, rb = list(self.ev(a, sa.clone())), list(self.ev(b, sb.clone()))
                    if len(ra) == 1 and len(rb) == 1 and z3.is_expr(ra[0][1]) and z3.is_expr(rb[0][1]) \
                       and self._same_store(s1.store, ra[0][0].store) and self._same_store(s1.store, rb[0][0].store) \
                       and len(ra[0][0].pc) == len(sa.pc) and len(rb[0][0].pc) == len(sb.pc):
                        for x in (ra[0][0], rb[0][0]):
                            for t in x.T:
                                s1.add_T(t)
                        yield s1, z3.If(cond, ra[0][1], rb[0][1])
                        continue
                self.rollback(m)
            for s2, t in self.fork(s1, cond):
                for o in self.ev(a if t else b, s2):
                    yield o

    def ev_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        k = self.kids(n)[0]
        for s1, v in self.ev(k, st):
            if isinstance(v, Throw):
                yield s1, v
                continue
            for o in self.cast(ck, v, k, n, s1):
                yield o

    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_CXXReinterpretCastExpr = ev_CXXDynamicCastExpr = ev_ImplicitCastExpr

    def cast(self, ck, v, k, n, st):
        if ck == 'LValueToRValue':
            yield st, self.rv(st, v, n)
        elif ck in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion', 'BuiltinFnToFnPtr',
                    'UncheckedDerivedToBase', 'DerivedToBase', 'ToVoid', 'BaseToDerived', 'Dynamic', 'LValueBitCast'):
            if ck == 'Dynamic' and 'dynamic_cast' in self.model_overrides:
                for o in self.model_overrides['dynamic_cast'](self, st, v, n):
                    yield o
                return
            yield st, v
        elif ck == 'ArrayToPointerDecay':
            lv = v
            if lv.path and not isinstance(lv.path[-1], str):
                yield st, Ptr(LV(lv.cell, lv.path[:-1]), lv.path[-1][1])   # row of a 2-d array
            else:
                yield st, Ptr(lv, self.A.const(0))
        elif ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            yield st, self.conv(self.rv(st, v), self.ctype(k), self.ctype(n))
        elif ck in ('IntegralToBoolean', 'PointerToBoolean'):
            yield st, self.to_bool(self.rv(st, v))
        elif ck == 'BitCast':
            yield st, self.view(st, self.rv(st, v), n)
        elif ck == 'NullToPointer':
            yield st, Ptr(None, self.A.const(0))
        elif ck == 'IntegralToFloating':
            v = self.rv(st, v)
            yield st, Opaque('itof', v, self.ctype(k))
        elif ck in ('FloatingCast',):
            yield st, self.rv(st, v)
        elif ck == 'FloatingToIntegral':
            yield st, self.M.float_to_int(self, st, self.rv(st, v), self.ctype(n), n)
        elif ck == 'FloatingToBoolean':
            raise Unsupported('float to bool')
        else:
            raise Unsupported('cast %s' % ck)

    def ev_MaterializeTemporaryExpr(self, n, st):
        for s1, v in self.ev(self.kids(n)[0], st):
            if isinstance(v, Throw) or isinstance(v, LV):
                yield s1, v
            else:
                yield s1, s1.alloc(v, 'tmp')

    def ev_CXXThrowExpr(self, n, st):
        k = self.kids(n)
        if not k:
            yield st, Throw('rethrow')
            return
        t = strip_type(qt(k[0]))
        try:
            res = list(self.ev(k[0], st.clone()))
        except Unsupported:
            if not self.is_pure_throw(k[0]):
                raise
            yield st, Throw(self.exc_name(t), None)
            return
        for s1, v in res:
            if isinstance(v, Throw):
                yield s1, v
            else:
                yield s1, Throw(self.exc_name(t), self.rv(s1, v) if isinstance(v, LV) else v)

    def is_pure_throw(self, n):
        return True

    def exc_name(self, t):
        t = strip_type(t)
        r = self.record(t)
        if r is not None:
            return r['_qname']
        if t == 'std::__ios_failure' or t.endswith('ios_base::failure') or t.startswith('std::ios_base::failure'):
            return 'std::ios_base::failure'
        return t

    def exc_matches(self, thrown, caught):
        caught = self.exc_name(caught)
        if thrown == caught or thrown.endswith('::failure') and re.search(r'::failure\b', caught):
            return True
        if thrown in STD_EXC:
            return caught in STD_EXC[thrown]
        r = self.tu.records.get(thrown)
        if r is not None:
            for b in r.get('bases', []) or []:
                bt = self.exc_name(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if bt == caught or self.exc_matches(bt, caught):
                    return True
        return False

    def ev_InitListExpr(self, n, st):
        t = strip_type(qt(n))
        k = self.kids(n)
        filler = [c for c in n.get('array_filler', []) or []]
        it = self.itype(t)
        if it and len(k) == 1:
            for o in self.ev(k[0], st):
                yield o
            return
        m = re.match(r'^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$', t)
        if filler and not k:
            k = [c for c in filler if c.get('kind') != 'ImplicitValueInitExpr']
        for s1, vs in self.evs(k, st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            vs = [self.rv(s1, v) for v in vs]
            if m:
                cnt = int(m.group(2))
                dims = [int(x) for x in re.findall(r'\d+', m.group(3))]
                w = self.elem_width(m.group(1))
                out = []
                for v in vs:
                    if isinstance(v, Seq):
                        for j in range(self.A.is_const(v.len)):
                            out.append(v.get(self.A, self.A.const(j)))
                    else:
                        out.append(v)
                tot = cnt
                for d in dims:
                    tot *= d
                while len(out) < tot:
                    out.append(z3.BitVecVal(0, w))
                s = seq_const(self.A, out, 'array', w)
                s.dim = dims
                s.signed = self.itype(m.group(1))[1]
                yield s1, s
            else:
                rec = self.record(t)
                ck = self.M.class_kind(t)
                if rec is not None and not ck:
                    s = self.default_struct(s1, rec, 'agg')
                    names = [c['name'] for c in rec['inner'] if c.get('kind') == 'FieldDecl']
                    for nm, v in zip(names, vs):
                        s = s.set(nm, v)
                    yield s1, s
                elif ck == 'array' and len(vs) == 1:
                    yield s1, vs[0]
                elif ck == 'array' and not vs:
                    yield s1, self.default_value(s1, t, 'arr', init=True)
                else:
                    raise Unsupported('initializer list for ' + t)

    def ev_ArrayInitLoopExpr(self, n, st):
        """memberwise copy of an array (implicit copy constructors)"""
        for s1, v in self.ev(self.kids(n)[0], st):
            yield s1, v if isinstance(v, Throw) else self.rv(s1, v)

    def ev_OpaqueValueExpr(self, n, st):
        return self.ev(self.kids(n)[0], st)

    def ev_LambdaExpr(self, n, st):
        op = None
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                for m in c.get('inner', []) or []:
                    if m.get('name') == 'operator()' and m.get('kind') == 'CXXMethodDecl':
                        op = m
        if op is None:
            raise Unsupported('generic lambda')
        yield st, Closure(op, dict(st.env), st.this)

    def ev_CXXNewExpr(self, n, st):
        for o in self.M.new_expr(self, n, st):
            yield o

    def ev_CXXDeleteExpr(self, n, st):
        for s1, v in self.ev(self.kids(n)[0], st):
            yield s1, v

    # ------------------------------------------------------------------ calls
    def ev_CallExpr(self, n, st):
        k = self.kids(n)
        callee, args = k[0], k[1:]
        ref = self.callee_ref(callee)
        if ref is not None and ref['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            fn = self.tu.definition_of(ref['id'], ref.get('name'), ref.get('type', {}).get('qualType'))
            for o in self.do_call(n, ref.get('name'), fn, ref, None, args, st):
                yield o
            return
        # calling a closure / function object
        for s1, f in self.ev(callee, st):
            if isinstance(f, Throw):
                yield s1, f
                continue
            f = self.rv(s1, f)
            if isinstance(f, FnRef):
                for o in self.do_call(n, f.ref.get('name'), f.node, f.ref, None, args, s1):
                    yield o
            else:
                raise Unsupported('call of %r' % (f,))

    def callee_ref(self, c):
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = self.kids(c)[0]
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl']
        return None

    def default_args(self, fn_decl, args):
        """replace CXXDefaultArgExpr by the parameter's initializer"""
        out = []
        ps = TU.params(fn_decl) if fn_decl else []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr' and not self.kids(a):
                init = None
                if fn_decl is not None:
                    cands = [fn_decl] + [f for f in self.tu.funcs.get(fn_decl.get('_qname', ''), [])
                                         if f.get('mangledName') == fn_decl.get('mangledName')]
                    for d in cands:
                        pp = TU.params(d)
                        if i < len(pp):
                            ini = [c for c in pp[i].get('inner', []) or [] if 'Comment' not in c.get('kind', '') and not c['kind'].endswith('Attr')]
                            if ini:
                                init = ini[0]
                                break
                out.append(init)   # None: left to the model
            else:
                out.append(a)
        return out

    def do_call(self, n, name, fn, ref, this_lv, args, st):
        """dispatch: contract, repository function, library model"""
        q = fn.get('_qname') if fn is not None else None
        if fn is None and ref is not None:
            dn = self.tu.by_id.get(ref['id'])
            if dn is not None:
                q = dn.get('_qname')
        if q in self.abstract_methods or name in self.abstract_methods:
            h = self.abstract_methods.get(q) or self.abstract_methods[name]
            decl = fn or (self.tu.by_id.get(ref['id']) or self.tu.declared(name, ref.get('type', {}).get('qualType')) if ref is not None else None)
            args2 = [a for a in self.default_args(decl, args) if a is not None]
            for s1, vs in self.evs(args2, st):
                if isinstance(vs, Throw):
                    yield s1, vs
                else:
                    for o in h(self, s1, this_lv, vs, n):
                        yield o
            return
        if q in self.contracts:
            self.used_contracts.add(q)
            args2 = self.default_args(fn or self.tu.by_id.get(ref['id']), args)
            if any(a is None for a in args2):
                raise Unsupported('default argument of ' + str(name))
            for s1, vs in self.evs(args2, st):
                if isinstance(vs, Throw):
                    yield s1, vs
                else:
                    for o in self.contracts[q](self, s1, this_lv, vs, n):
                        yield o
            return
        if fn is not None and TU.body(fn) is not None and self.in_repo(fn):
            args2 = self.default_args(fn, args)
            if any(a is None for a in args2):
                raise Unsupported('default argument of ' + str(name))
            for s1, vs in self.evs(args2, st):
                if isinstance(vs, Throw):
                    yield s1, vs
                else:
                    for o in self.call_fn(fn, this_lv, vs, s1, n):
                        yield o
            return
        m = self.M.free_function(self, name, n, ref)
        if m is None and fn is None and ref is not None and name:
            fn = self.tu.outside(name, ref.get('type', {}).get('qualType'))
            if fn is not None:
                for o in self.do_call(n, name, fn, ref, this_lv, args, st):
                    yield o
                return
        if m is None:
            raise Unsupported('call of %s at %s' % (name, self.where(n)))
        self.used_models.add('std::' + str(name))
        args2 = self.default_args(None, args)
        args2 = [a for a in args2 if a is not None]
        for s1, vs in self.evs(args2, st):
            if isinstance(vs, Throw):
                yield s1, vs
            else:
                for o in m(self, s1, vs, n, args2):
                    yield o

    def in_repo(self, fn):
        q = fn.get('_qname', '')
        return not q.startswith(('std::', '__gnu', 'boost::'))

    def call_fn(self, fn, this_lv, vals, st, n):
        """execute a repository function from its AST"""
        if self.depth > 40:
            raise Unsupported('recursion')
        self.inlined.add(fn.get('_qname', '?'))
        saved_env, saved_this = st.env, st.this
        s = st
        s.env = {}
        s.this = this_lv
        for p, v in zip(TU.params(fn), vals):
            self.bind(s, p, v)
        self.depth += 1
        self.curfn.append(fn.get('_qname', '?'))
        try:
            outs = []
            if fn['kind'] == 'CXXConstructorDecl':
                it = self.run_ctor(fn, s)
            else:
                it = self.ex(TU.body(fn), s)
            for s1, out in it:
                s1.env, s1.this = dict(saved_env), saved_this
                if out is None:
                    yield s1, None
                elif out[0] == 'ret':
                    yield s1, out[1]
                elif out[0] == 'throw':
                    yield s1, out[1]
                else:
                    raise Unsupported('outcome %r' % (out,))
        finally:
            self.depth -= 1
            self.curfn.pop()

    def bind(self, s, p, v):
        t = p['type'].get('qualType', '')
        td = qt(p)
        if is_ref_type(td) or is_ref_type(t):
            if not isinstance(v, LV):
                v = s.alloc(v, p.get('name', 'arg'))
            s.env[p['id']] = v
        else:
            if isinstance(v, LV):
                v = self.load(s, v)
            s.env[p['id']] = s.alloc(v, p.get('name', 'arg'))

    def run_ctor(self, fn, st):
        inits = [c for c in fn.get('inner', []) or [] if c.get('kind') == 'CXXCtorInitializer']
        def go(i, s):
            if i == len(inits):
                for o in self.ex(TU.body(fn), s):
                    yield o
                return
            c = inits[i]
            k = [x for x in c.get('inner', []) if x]
            e = k[0]
            if 'anyInit' in c:
                fld = c['anyInit']['name']
                if e['kind'] == 'CXXDefaultInitExpr' and not self.kids(e):
                    for o in go(i + 1, s):
                        yield o
                    return
                for s1, v in self.ev(e, s):
                    if isinstance(v, Throw):
                        yield s1, ('throw', v)
                        continue
                    ft = c['anyInit'].get('type', {}).get('qualType', '')
                    v = self.rv(s1, v)
                    if not self._default_ctor_of_scalar(e, v):
                        self.storev(s1, s1.this.field(self.field_key(s1, s1.this, fld, c['anyInit'].get('id'))), v)
                    for o in go(i + 1, s1):
                        yield o
            else:   # base or delegating initializer
                e2 = e
                while e2['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    e2 = self.kids(e2)[0]
                t = strip_type(qt(e2))
                rec = self.record(t)
                if rec is None:       # library base class
                    for o in go(i + 1, s):
                        yield o
                    return
                for s1, v in self.construct(e2, s, s.this):
                    if isinstance(v, Throw):
                        yield s1, ('throw', v)
                        continue
                    for o in go(i + 1, s1):
                        yield o
        return go(0, st)

    def _default_ctor_of_scalar(self, e, v):
        return v is None

    def ctor_def(self, n, rec, nargs):
        """find the constructor called by a construct expression, by its signature"""
        want = (n.get('ctorType') or {}).get('qualType')
        out = []
        q = rec['_qname'] + '::' + rec['name']
        for f in self.tu.funcs.get(q, []):
            if f['kind'] == 'CXXConstructorDecl' and f.get('type', {}).get('qualType') == want:
                if self.tu.body(f) is not None:
                    return f
                m = f.get('mangledName')
                if m in self.tu.by_mangled:
                    return self.tu.by_mangled[m]
                out.append(f)
        for f in out:
            m = f.get('mangledName')
            # C1/C2 constructors share a body
            for mm, g in self.tu.by_mangled.items():
                if g['kind'] == 'CXXConstructorDecl' and g.get('type', {}).get('qualType') == want and g.get('_ctx', '').endswith(rec['name']):
                    return g
        return None

    def ev_CXXConstructExpr(self, n, st):
        t = strip_type(qt(n))
        rec = self.record(t)
        if rec is not None and not self.M.class_kind(t):
            lv = st.alloc(self.default_struct(st, rec, rec['name']), rec['name'])
            for s1, v in self.construct(n, st, lv):
                if isinstance(v, Throw):
                    yield s1, v
                else:
                    yield s1, s1.store[lv.cell]
            return
        for o in self.M.construct(self, n, t, st):
            yield o

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, n, st, lv):
        """run a repository constructor on the object at lv"""
        rec = self.record(strip_type(qt(n)))
        args = self.kids(n)
        ct = (n.get('ctorType') or {}).get('qualType', '')
        f = self.ctor_def(n, rec, len(args))
        if f is None or self.tu.body(f) is None:
            # implicit copy/move/default constructor
            if len(args) == 0:
                yield st, None
                return
            if len(args) == 1:
                for s1, v in self.ev(args[0], st):
                    if isinstance(v, Throw):
                        yield s1, v
                        continue
                    v = self.rv(s1, v)
                    if isinstance(v, Struct):
                        cur = self.load(s1, lv, check=False)
                        # a base class: its own members only
                        own = cur.f if strip_type(cur.cls) == rec['_qname'] else self.default_struct(s1, rec, 'base').f
                        self.storev(s1, lv, Struct(cur.cls, {k: v.f.get(k, x) if k in own else x for k, x in cur.f.items()}))
                        yield s1, None
                    else:
                        raise Unsupported('constructor of ' + rec['_qname'])
                return
            raise Unsupported('constructor of ' + rec['_qname'])
        args = self.default_args(f, args)
        if any(a is None for a in args):
            raise Unsupported('default argument of constructor')
        for s1, vs in self.evs(args, st):
            if isinstance(vs, Throw):
                yield s1, vs
            elif rec['_qname'] + '::' + rec['name'] in self.abstract_methods:
                for s2, v in self.abstract_methods[rec['_qname'] + '::' + rec['name']](self, s1, lv, vs, n):
                    yield s2, (v if isinstance(v, Throw) else None)
            else:
                for s2, v in self.call_fn(f, lv, vs, s1, n):
                    yield s2, (v if isinstance(v, Throw) else None)

    def ev_CXXMemberCallExpr(self, n, st):
        k = self.kids(n)
        me, args = k[0], k[1:]
        while me['kind'] == 'ParenExpr':
            me = self.kids(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        name = me.get('name', '')
        mid = me.get('referencedMemberDecl')
        base = self.kids(me)
        for s1, b in self.ev(base[0], st):
            if isinstance(b, Throw):
                yield s1, b
                continue
            for o in self.member_call(n, me, name, mid, b, args, s1):
                yield o

    def member_call(self, n, me, name, mid, b, args, st):
        # smart pointer / iterator arrow is represented by Ptr
        pv = b
        if me.get('isArrow') and isinstance(pv, LV):
            pv = self.load(st, pv)
        if me.get('isArrow') and not isinstance(pv, (Ptr, LV)):
            h = self.abstract_methods.get(name)
            if h:
                for s1, vs in self.evs(args, st):
                    if isinstance(vs, Throw):
                        yield s1, vs
                    else:
                        for o in h(self, s1, pv, vs, n):
                            yield o
                return
            raise Unsupported('-> on %r' % (pv,))
        lv = self.obj_lv(st, pv if me.get('isArrow') else b, me)
        obj = self.load(st, lv, n)
        fn = self.tu.definition_of(mid) if mid else None
        decl = self.tu.by_id.get(mid) if mid else None
        if fn is not None or (isinstance(obj, Struct) and not isinstance(obj, (Stream, Tup, Opt)) and decl is not None) or \
           (decl is not None and decl.get('_qname') in self.abstract_methods):
            ref = {'id': mid, 'name': name, 'kind': 'CXXMethodDecl', 'type': {}}
            for o in self.do_call(n, name, fn, ref, lv, args, st):
                yield o
            return
        args2 = [a for a in self.default_args(None, args) if a is not None]
        for s1, vs in self.evs(args2, st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            for o in self.M.method(self, s1, lv, name, vs, n, args2):
                yield o

    def ev_CXXOperatorCallExpr(self, n, st):
        k = self.kids(n)
        ref = self.callee_ref(k[0])
        name = ref.get('name') if ref else None
        args = k[1:]
        fn = self.tu.definition_of(ref['id'], name, ref.get('type', {}).get('qualType')) if ref else None
        if fn is not None and self.in_repo(fn):
            if fn['kind'] == 'CXXMethodDecl':
                for s1, b in self.ev(args[0], st):
                    if isinstance(b, Throw):
                        yield s1, b
                        continue
                    lv = b if isinstance(b, LV) else s1.alloc(b, 'tmp')
                    for o in self.do_call(n, name, fn, ref, lv, args[1:], s1):
                        yield o
            else:
                for o in self.do_call(n, name, fn, ref, None, args, st):
                    yield o
            return
        if name == 'operator=':
            # assignment: right operand first
            order = [1, 0]
            for s1, vs in self.evs([args[1], args[0]], st):
                if isinstance(vs, Throw):
                    yield s1, vs
                    continue
                for o in self.M.operator(self, s1, name, [vs[1], vs[0]], n, args):
                    yield o
            return
        for s1, vs in self.evs(args, st):
            if isinstance(vs, Throw):
                yield s1, vs
                continue
            for o in self.M.operator(self, s1, name, vs, n, args):
                yield o

    # ------------------------------------------------------------------ statements
    def ex(self, n, st):
        if callable(n):         # a loop of a library algorithm
            return n(st)
        m = getattr(self, 'ex_' + n['kind'], None)
        if m is not None:
            return m(n, st)
        return self.ex_expr(n, st)

    def ex_expr(self, n, st):
        for s1, v in self.ev(n, st):
            yield s1, (('throw', v) if isinstance(v, Throw) else None)

    def ex_NullStmt(self, n, st):
        yield st, None

    def ex_AttributedStmt(self, n, st):
        return self.ex(self.kids(n)[-1], st)

    def ex_CompoundStmt(self, n, st):
        return self.ex_seq(self.kids(n), 0, st)

    def ex_seq(self, stmts, i, st):
        if i >= len(stmts):
            yield st, None
            return
        for s1, out in self.ex(stmts[i], st):
            if out is not None:
                yield s1, out
            else:
                for o in self.ex_seq(stmts, i + 1, s1):
                    yield o

    def ex_DeclStmt(self, n, st):
        def go(ds, i, s):
            if i >= len(ds):
                yield s, None
                return
            d = ds[i]
            if d['kind'] != 'VarDecl':
                for o in go(ds, i + 1, s):
                    yield o
                return
            if d.get('storageClass') == 'static':
                key = 'static:' + d['id']
                if key in s.store:
                    s.env[d['id']] = LV(key)
                    for o in go(ds, i + 1, s):
                        yield o
                    return
                is_const = d['type']['qualType'].startswith('const')
                if is_const and self._has_init(d):
                    for s1, v in self.init_var(d, s):
                        if isinstance(v, Throw):
                            yield s1, ('throw', v)
                            continue
                        s1.store[key] = self.rv(s1, v)
                        s1.env[d['id']] = LV(key)
                        for o in go(ds, i + 1, s1):
                            yield o
                    return
                # mutable static: any earlier call may have left any value
                s.store[key] = self.default_value(s, qt(d), d.get('name', 's'))
                s.env[d['id']] = LV(key)
                for o in go(ds, i + 1, s):
                    yield o
                return
            for s1, v in self.init_var(d, s):
                if isinstance(v, Throw):
                    yield s1, ('throw', v)
                    continue
                if is_ref_type(qt(d)):
                    if not isinstance(v, LV):
                        v = s1.alloc(v, d.get('name', 'v'))
                    s1.env[d['id']] = v
                else:
                    v = self.rv(s1, v)
                    s1.env[d['id']] = s1.alloc(v, d.get('name', 'v'))
                for o in go(ds, i + 1, s1):
                    yield o
        return go(self.kids(n), 0, st)

    def init_var(self, d, st):
        k = [c for c in self.kids(d) if 'Comment' not in c['kind']]
        t = qt(d)
        if not k:
            yield st, self.default_value(st, t, d.get('name', 'v'))
            return
        e = k[-1]
        for s1, v in self.ev(e, st):
            if isinstance(v, Throw):
                yield s1, v
                continue
            if v is None:
                v = self.default_value(s1, t, d.get('name', 'v'))
            m = re.match(r'^(.*?)\s*\[(\d+)\]$', strip_type(t))
            if m and isinstance(v, LV):      # char buf[] = "..."
                sv = self.load(s1, v)
                v = sv
            yield s1, v

    def ex_ReturnStmt(self, n, st):
        k = self.kids(n)
        if not k:
            yield st, ('ret', None)
            return
        for s1, v in self.ev(k[0], st):
            yield s1, (('throw', v) if isinstance(v, Throw) else ('ret', v))

    def ex_IfStmt(self, n, st):
        k = [c for c in n.get('inner', []) if c]
        if n.get('hasInit') or n.get('hasVar'):
            pre = k[:-3] if n.get('hasElse') else k[:-2]
            rest = k[len(pre):]
            for s1, o in self.ex_seq(pre, 0, st):
                if o is not None:
                    yield s1, o
                    continue
                for oo in self.ex_if(rest, n.get('hasElse'), s1):
                    yield oo
            return
        for o in self.ex_if(k, n.get('hasElse'), st):
            yield o

    def ex_if(self, k, has_else, st):
        for s1, c in self.ev(k[0], st):
            if isinstance(c, Throw):
                yield s1, ('throw', c)
                continue
            cond = self.to_bool(self.rv(s1, c))
            for s2, t in self.fork(s1, cond):
                if t:
                    for o in self.ex(k[1], s2):
                        yield o
                elif has_else:
                    for o in self.ex(k[2], s2):
                        yield o
                else:
                    yield s2, None

    def ex_SwitchStmt(self, n, st):
        k = self.kids(n)
        cond, body = k[-2], k[-1]
        items = []     # (labels, stmt): labels list of exprs or 'default'

        def flat(s, labels):
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                kk = self.kids(s)
                if s['kind'] == 'CaseStmt':
                    labels = labels + [kk[0]]
                    s = kk[-1]
                else:
                    labels = labels + ['default']
                    s = kk[-1]
            items.append((labels, s))
        for c in (self.kids(body) if body['kind'] == 'CompoundStmt' else [body]):
            flat(c, [])
        stmts = [s for _, s in items]
        for s1, cv in self.ev(cond, st):
            if isinstance(cv, Throw):
                yield s1, ('throw', cv)
                continue
            cv = self.rv(s1, cv)
            notany = []
            dflt = None
            cur = s1
            for i, (labels, _) in enumerate(items):
                for l in labels:
                    if l == 'default':
                        dflt = i
                        continue
                    (s9, lvv), = list(self.ev(l, cur))
                    lvv = self.rv(cur, lvv)
                    hit = cv == lvv
                    if z3.is_false(z3.simplify(hit)):
                        continue
                    s2 = s1.clone()
                    s2.assume(hit)
                    notany.append(z3.Not(hit))
                    if not self.feasible(s2):
                        continue
                    for s3, out in self.ex_seq(stmts, i, s2):
                        yield s3, (None if out is not None and out[0] == 'break' else out)
            s2 = s1.clone()
            for c in notany:
                s2.assume(c)
            if self.feasible(s2):
                if dflt is not None:
                    for s3, out in self.ex_seq(stmts, dflt, s2):
                        yield s3, (None if out is not None and out[0] == 'break' else out)
                else:
                    yield s2, None

    def ex_BreakStmt(self, n, st):
        yield st, ('break',)

    def ex_ContinueStmt(self, n, st):
        yield st, ('continue',)

    def ex_CXXTryStmt(self, n, st):
        k = self.kids(n)
        body, handlers = k[0], k[1:]
        env0 = st.env
        for s1, out in self.ex(body, st):
            if out is None or out[0] != 'throw':
                yield s1, out
                continue
            exc = out[1]
            done = False
            for h in handlers:
                hk = [c for c in h.get('inner', []) if c]
                if len(hk) == 1:          # catch (...)
                    decl, hb = None, hk[0]
                else:
                    decl, hb = hk[0], hk[1]
                if decl is None or self.exc_matches(exc.ty, qt(decl)) or self.exc_matches(exc.ty, decl['type'].get('qualType', '')):
                    if decl is not None:
                        s1.env[decl['id']] = s1.alloc(exc.val if exc.val is not None else Opaque('exception', exc.ty), 'exc')
                    for s2, o2 in self.ex(hb, s1):
                        if o2 is not None and o2[0] == 'throw' and o2[1].ty == 'rethrow':
                            yield s2, ('throw', exc)
                        else:
                            yield s2, o2
                    done = True
                    break
            if not done:
                yield s1, out

    # ------------------------------------------------------------------ loops
    def ex_ForStmt(self, n, st):
        inner = n.get('inner', [])
        init, cvar, cond, inc, body = (inner + [{}] * 5)[:5]
        if cvar:
            raise Unsupported('for condition variable')
        its = self.ex(init, st) if init else iter([(st, None)])
        for s1, o in its:
            if o is not None:
                yield s1, o
                continue
            for oo in self.loop(n, s1, cond, inc, body):
                yield oo

    def ex_WhileStmt(self, n, st):
        k = [c for c in n.get('inner', []) if c]
        if len(k) == 3:
            raise Unsupported('while condition variable')
        return self.loop(n, st, k[0], None, k[1])

    def ex_DoStmt(self, n, st):
        k = [c for c in n.get('inner', []) if c]
        body, cond = k
        # first iteration, then a while loop
        for s1, out in self.ex(body, st):
            if out is not None and out[0] == 'break':
                yield s1, None
            elif out is not None and out[0] != 'continue':
                yield s1, out
            else:
                for oo in self.loop(n, s1, cond, None, body):
                    yield oo

    def ex_CXXForRangeStmt(self, n, st):
        inner = [c for c in n.get('inner', [])]
        # init, range, begin, end, cond, inc, loopvar, body
        init, rng, beg, end, cond, inc, var, body = inner[-8:] if len(inner) >= 8 else ([{}] + inner)
        pre = [c for c in (init, rng, beg, end) if c]
        for s1, o in self.ex_seq(pre, 0, st):
            if o is not None:
                yield s1, o
                continue
            bb = {'kind': 'CompoundStmt', 'inner': [var, body]}
            for oo in self.loop(n, s1, cond, inc, bb):
                yield oo

    def eval_cond(self, cond, st):
        """yield (st, True/False/('throw',..))"""
        if not cond:
            yield st, True
            return
        for s1, c in (cond(st) if callable(cond) else self.ev(cond, st)):
            if isinstance(c, Throw):
                yield s1, ('throw', c)
                continue
            for o in self.fork(s1, self.to_bool(self.rv(s1, c))):
                yield o

    def run_inc(self, inc, st):
        if not inc:
            yield st, None
            return
        for o in (inc(st) if callable(inc) else self.ex(inc, st)):
            yield o

    def loop(self, n, st, cond, inc, body):
        spec = self.loops(self, n, st, self.curfn[-1] if self.curfn else self.fname)
        if spec is None:
            return self.loop_unroll(n, st, cond, inc, body, 0)
        if cond:
            outs = self.loop_constant(n, st, cond, inc, body)
            if outs is not None:
                return iter(outs)
        return self.loop_inv(n, st, cond, inc, body, spec)

    def loop_constant(self, n, st, cond, inc, body, limit=8):
        """a loop over a constant range (the condition is a constant each time round): no invariant is needed; None if it is not one"""
        m = self.mark()
        todo, outs = [(st.clone(), 0)], []
        try:
            while todo:
                s, k = todo.pop(0)
                for s1, c in (cond(s) if callable(cond) else self.ev(cond, s)):
                    t = None if isinstance(c, Throw) else z3.simplify(self.to_bool(self.rv(s1, c)))
                    if t is None or not (z3.is_true(t) or z3.is_false(t)) or k == limit:
                        raise Unsupported('not a constant range')
                    if z3.is_false(t):
                        outs.append((s1, None))
                        continue
                    for s2, out in self.ex(body, s1):
                        if out is not None and out[0] == 'break':
                            outs.append((s2, None))
                        elif out is not None and out[0] != 'continue':
                            outs.append((s2, out))
                        else:
                            for s3, o3 in self.run_inc(inc, s2):
                                if o3 is not None:
                                    outs.append((s3, o3))
                                else:
                                    todo.append((s3, k + 1))
        except Unsupported:
            self.rollback(m)
            return None
        return outs

    def loop_unroll(self, n, st, cond, inc, body, depth, known=0):
        """known: iterations whose condition was determined (a loop over a constant range)"""
        outs = list(self.eval_cond(cond, st))
        if cond and len(outs) == 1 and isinstance(outs[0][1], bool) and known < 8:
            depth, known = depth - 1, known + 1
        elif depth > self.unroll:
            raise Unsupported('loop at %s: no invariant and more than %d iterations' % (self.where(n), self.unroll))
        for s1, t in outs:
            if isinstance(t, tuple):
                yield s1, t
            elif not t:
                yield s1, None
            else:
                for s2, out in self.ex(body, s1):
                    if out is not None and out[0] == 'break':
                        yield s2, None
                    elif out is not None and out[0] != 'continue':
                        yield s2, out
                    else:
                        for s3, o3 in self.run_inc(inc, s2):
                            if o3 is not None:
                                yield s3, o3
                                continue
                            for o in self.loop_unroll(n, s3, cond, inc, body, depth + 1, known):
                                yield o

    # ---- invariant-cut loops
    def diff(self, a, b, path, out):
        if a is b:
            return
        if z3.is_expr(a) and z3.is_expr(b):
            if not a.eq(b) and not z3.simplify(a).eq(z3.simplify(b)):
                out.add(path + ('val',))
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.sel is not b.sel or a.over is not b.over:
                same = a.sel is b.sel and set(a.over) == set(b.over) and all(a.over[k].eq(b.over[k]) for k in a.over)
                if not same:
                    out.add(path + ('seq',))
            if not a.len.eq(b.len) and not z3.simplify(a.len).eq(z3.simplify(b.len)):
                out.add(path + ('len',))
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if (a.lv is None) != (b.lv is None) or (a.lv is not None and not a.lv.same(b.lv)):
                raise Unsupported('loop changes the target of a pointer')
            if not z3.simplify(a.off).eq(z3.simplify(b.off)):
                out.add(path + ('off',))
            return
        if isinstance(a, Struct) and isinstance(b, Struct):
            for k in a.f:
                self.diff(a.f[k], b.f.get(k), path + ('f:' + k,), out)
            return
        if isinstance(a, (Opaque, BackInserter, Closure, FnRef)) or a is None:
            if isinstance(a, BackInserter) and isinstance(b, BackInserter) and a.lv.same(b.lv):
                return
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
                return
            out.add(path + ('opaque',))
            return
        raise Unsupported('loop changes %r to %r' % (a, b))

    def havoc_val(self, st, v, paths, name):
        """paths: set of tuples (component path)"""
        if ('val',) in paths:
            if z3.is_bool(v):
                return z3.Bool(fresh_name(name))
            x = z3.Const(fresh_name(name), v.sort())
            if v.sort() == z3.IntSort():
                st.assume(z3.And(x >= -(1 << 63), x <= (1 << 64) - 1))
            return x
        if ('opaque',) in paths:
            return Opaque('havoc', name)
        if isinstance(v, Seq):
            r = v
            if ('seq',) in paths:
                f = z3.Function(fresh_name(name), self.A.sort, z3.IntSort() if v.ew == 'int' else z3.BitVecSort(v.ew))
                r = Seq(lambda j, f=f: f(j), v.len, v.ew, v.kind, None, v.signed, v.dim)
            if ('len',) in paths:
                ln = self.A.fresh(name + '.len')
                st.assume(z3.And(self.A.le(self.A.const(0), ln), self.A.lt(ln, self.A.const(1 << 62))))
                r = r.with_len(ln)
            return r
        if isinstance(v, Ptr):
            return Ptr(v.lv, self.A.fresh(name + '.off'), v.single)
        if isinstance(v, Struct):
            f = dict(v.f)
            for k in f:
                sub = {p[1:] for p in paths if p[0] == 'f:' + k}
                if sub:
                    f[k] = self.havoc_val(st, f[k], sub, name + '.' + k)
            return type(v)(v.cls, f)
        raise Unsupported('havoc of %r' % (v,))

    def loop_inv(self, n, st, cond, inc, body, spec):
        key = '%s#%s' % ((self.curfn[-1] if self.curfn else self.fname).split('::')[-1], n.get('_line', '?'))
        modified = {}
        entry = st
        for rounds in range(12):
            m = self.mark()
            head = entry.clone()
            for c, paths in modified.items():
                head.store[c] = self.havoc_val(head, head.store[c], paths, 'h_' + c.split('!')[0])
            inst = LoopInst(key, self.where(n))
            head.pc.append(inst.sym)
            inst.head = head.clone()
            backs, exits = [], []
            for s1, t in self.eval_cond(cond, head.clone()):
                if isinstance(t, tuple):
                    exits.append((s1, t))
                elif not t:
                    exits.append((s1, None))
                else:
                    for s2, out in self.ex(body, s1):
                        if out is not None and out[0] == 'break':
                            exits.append((s2, None))
                        elif out is not None and out[0] != 'continue':
                            exits.append((s2, out))
                        else:
                            for s3, o3 in self.run_inc(inc, s2):
                                if o3 is not None:
                                    exits.append((s3, o3))
                                else:
                                    backs.append(s3)
            new = False
            for s in backs:
                for c, hv in inst.head.store.items():
                    out = set()
                    self.diff(hv, s.store[c], (), out)
                    have = modified.setdefault(c, set())
                    if not out <= have:
                        have |= out
                        new = True
            modified = {c: p for c, p in modified.items() if p}
            if not new:
                break
            self.rollback(m)
        else:
            raise Unsupported('loop modification set does not stabilise')
        spec.setup(self, inst, entry, inst.head, modified)
        self.recs.append(Edge(inst, 'entry', entry.clone()))
        for s in backs:
            self.recs.append(Edge(inst, 'back', s.clone()))
        self.loop_insts[inst.sym.decl().name()] = inst
        if getattr(spec, 'join', False):
            exits = self.join(n, key, entry, exits, spec)
        for s, o in exits:
            yield s, o

    def join(self, n, key, entry, exits, spec):
        """one state for all the ways of leaving a loop normally; what is known of it are the invariants proved on each of them"""
        normal = [s for s, o in exits if o is None]
        if len(normal) < 2:
            return exits
        modified = {}
        for s in normal:
            for c, v in entry.store.items():
                out = set()
                try:
                    self.diff(v, s.store[c], (), out)
                except Unsupported:
                    return exits
                if out:
                    modified.setdefault(c, set()).update(out)
        head = entry.clone()
        for c, paths in modified.items():
            head.store[c] = self.havoc_val(head, head.store[c], paths, 'x_' + c.split('!')[0])
        inst = LoopInst(key + '_after', self.where(n) + ' (after)')
        head.pc.append(inst.sym)
        inst.head = head.clone()
        spec.setup(self, inst, entry, inst.head, modified)
        for s in normal:
            self.recs.append(Edge(inst, 'entry', s.clone()))
        self.loop_insts[inst.sym.decl().name()] = inst
        return [(head, None)] + [(s, o) for s, o in exits if o is not None]
