"""Front end: run clang on the real sources and index the JSON AST."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('SCRIBBU_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CXXFLAGS = ['-std=c++20', '-Wno-register', '-I' + os.path.join(HERE, 'harness', 'config'), '-I' + REPO,
            '-I' + REPO + '/scribbu', '-I' + REPO + '/src', '-I/usr/include/guile/3.0']


class FrontEndError(Exception):
    pass


class Unsupported(Exception):
    """The construct is outside the accepted subset (never an alarm)."""
    pass


def clang_ast(tu, flt, tag=''):
    """tag: prefix of the declaration ids, which are unique within one dump only"""
    cmd = ['clang++'] + CXXFLAGS + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                                    '-Xclang', '-ast-dump-filter=' + flt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontEndError(p.stderr.decode(errors='replace')[-2000:])
    txt = p.stdout.decode(errors='replace')
    if tag:
        txt = re.sub(r'"0x[0-9a-f]+"', lambda m: '"' + tag + m.group(0)[1:], txt)
    dec = json.JSONDecoder()
    i, docs = 0, []
    while True:
        while i < len(txt) and txt[i] in ' \n\r\t':
            i += 1
        if i >= len(txt):
            break
        if txt[i] != '{':           # "Dumping xxx:" headings
            i = txt.index('\n', i) + 1
            continue
        d, i = dec.raw_decode(txt, i)
        docs.append(d)
    return docs


class TU:
    """All declarations of one translation unit whose qualified name matches a filter."""

    def __init__(self, tu, filters=('scribbu',)):
        self.tu = tu
        self.by_id = {}
        self.funcs = {}       # qualified name -> [node]
        self.by_mangled = {}  # mangled -> node having a body
        self.records = {}     # qualified name -> definition node
        self.enums = {}       # qualified name -> {enumerator: value}, with '' -> underlying
        self.enumconst = {}   # decl id -> (value, enum qname)
        self.vars = {}        # id -> node
        self.var_by_name = {}
        self._line = 0
        self._file = ''
        self.loaded = set()
        for f in filters:
            self.load(f)

    def load(self, f):
        if f in self.loaded:
            return
        for d in clang_ast(self.tu, f, '%d:' % len(self.loaded) if self.loaded else ''):
            self._index(d, self._outer_ctx(d), None)
        self.loaded.add(f)

    def outside(self, name, qualtype):
        """definition of a function found by name and type (for those outside the namespaces loaded)"""
        try:
            self.load(name)
        except FrontEndError:
            return None
        return self._by_name(name, qualtype)

    def declared(self, name, qualtype):
        """some declaration of a function, by name and type"""
        for q, l in self.funcs.items():
            if q.split('::')[-1] == name:
                for f in l:
                    if f.get('type', {}).get('qualType') == qualtype:
                        return f
        return None

    def _by_name(self, name, qualtype):
        c = {}
        for q, l in self.funcs.items():
            if q.split('::')[-1] == name and not q.startswith(('std::', '__gnu', 'boost::')):
                for f in l:
                    if self.body(f) is not None and f.get('type', {}).get('qualType') == qualtype and not self._dependent(f):
                        c[f.get('mangledName')] = f
        return list(c.values())[0] if len(c) == 1 else None

    def _outer_ctx(self, d):
        # parents of filtered top-level dumps are not shown; recover from the mangled name
        if d['kind'] == 'NamespaceDecl':
            return ''
        m = d.get('mangledName', '')
        mm = re.match(r'_ZN?K?((?:\d+[A-Za-z_0-9]+?)*)', m)
        comps = []
        if m.startswith('_ZN'):
            s = m[3:]
            if s.startswith('K'):
                s = s[1:]
            while s and s[0].isdigit():
                k = re.match(r'\d+', s).group(0)
                n = int(k)
                comps.append(s[len(k):len(k) + n])
                s = s[len(k) + n:]
            comps = ['(anonymous namespace)' if c == '_GLOBAL__N_1' else c for c in comps]
            if comps and comps[-1] == d.get('name'):
                comps = comps[:-1]
            return '::'.join(comps)
        return ''

    def _index(self, n, ctx, parent):
        loc = n.get('loc')
        if isinstance(loc, dict):
            l = loc.get('expansionLoc', loc)
            if 'file' in l:
                self._file = l['file']
            if 'line' in l:
                self._line = l['line']
        r = n.get('range')
        if isinstance(r, dict):
            b = r.get('begin', {})
            b = b.get('expansionLoc', b)
            if 'line' in b:
                self._line = b['line']
            n['_line'] = self._line
            n['_file'] = self._file
            n.pop('range', None)
        kind = n.get('kind')
        name = n.get('name')
        nid = n.get('id')
        sub = ctx
        if kind and nid and (kind.endswith('Decl') or kind.endswith('Specialization')):
            old = self.by_id.get(nid)
            if old is None or len(old) < len(n):
                self.by_id[nid] = n
            q = ctx + '::' + name if ctx and name else (name or ctx)
            n['_qname'] = q
            n['_ctx'] = ctx
            if kind == 'NamespaceDecl':
                sub = q if name else (ctx + '::(anonymous namespace)' if ctx else '(anonymous namespace)')
            elif kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                sub = q
                if n.get('completeDefinition'):
                    self.records[q] = n
            elif kind == 'EnumDecl':
                sub = q if n.get('scopedEnumTag') else ctx
                self._enum(n, q)
            elif kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
                # out-of-line definitions are placed by their parentDeclContext
                pid = n.get('parentDeclContextId')
                if pid and pid in self.by_id and '_qname' in self.by_id[pid]:
                    q = self.by_id[pid]['_qname'] + '::' + (name or '')
                    n['_qname'] = q
                    n['_ctx'] = self.by_id[pid]['_qname']
                self.funcs.setdefault(q, []).append(n)
                if self.body(n) is not None and n.get('mangledName'):
                    self.by_mangled[n['mangledName']] = n
                sub = q
            elif kind == 'VarDecl':
                self.vars[nid] = n
                self.var_by_name.setdefault(name, []).append(n)
        for c in n.get('inner', []) or []:
            if isinstance(c, dict) and c:
                c['_parent_kind'] = kind
                self._index(c, sub, n)

    def _enum(self, n, q):
        vals = {}
        under = n.get('fixedUnderlyingType', {}).get('desugaredQualType') or \
            n.get('fixedUnderlyingType', {}).get('qualType') or 'int'
        nxt = 0
        for c in n.get('inner', []) or []:
            if c.get('kind') == 'EnumConstantDecl':
                for cc in c.get('inner', []) or []:
                    v = self._constval(cc)
                    if v is not None:
                        nxt = v
                vals[c['name']] = nxt
                self.enumconst[c['id']] = (nxt, q)
                nxt += 1
        vals[''] = under
        self.enums[q] = vals

    def _constval(self, n):
        if n.get('kind') == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        if n.get('kind') == 'IntegerLiteral':
            return int(n['value'])
        for c in n.get('inner', []) or []:
            v = self._constval(c)
            if v is not None:
                return v
        return None

    @staticmethod
    def body(n):
        for c in n.get('inner', []) or []:
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    @staticmethod
    def params(n):
        return [c for c in n.get('inner', []) or [] if c.get('kind') == 'ParmVarDecl']

    def find(self, qname, pred=None):
        """The definition(s) of a function, by qualified name."""
        out, seen = [], set()
        for f in self.funcs.get(qname, []):
            if self.body(f) is not None and (pred is None or pred(f)):
                k = f.get('mangledName') or f['id']
                if k not in seen and not self._dependent(f):
                    seen.add(k)
                    out.append(f)
        return out

    @staticmethod
    def _dependent(f):
        # the uninstantiated pattern inside a FunctionTemplateDecl has no mangled name
        return f.get('_parent_kind') == 'FunctionTemplateDecl' and not f.get('mangledName')

    def definition_of(self, ref_id, name=None, qualtype=None):
        """Definition node for a referenced function id (or by name/type across dumps)."""
        n = self.by_id.get(ref_id)
        if n is not None:
            if self.body(n) is not None:
                return n
            m = n.get('mangledName')
            if m and m in self.by_mangled:
                return self.by_mangled[m]
            return None
        if name is not None:
            return self._by_name(name, qualtype)
        return None
