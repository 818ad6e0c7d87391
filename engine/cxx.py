"""clang JSON AST of /repo's translation units: functions, classes, types."""
import json, os, re, subprocess, concurrent.futures as cf
from .terms import *

REPO = os.environ.get('K52_REPO', '/repo')
FLAGS = ['-std=c++17', '-fsyntax-only', '-w', '-DBUILD_WITH_BOOST_THREAD', '-DBUILD_WITH_FFTW3', '-D_USE_MATH_DEFINES']
_dec = json.JSONDecoder()

class ExtractError(Exception): pass

def clang_dump(path, filt='k52'):
    cmd = ['clang++-18'] + FLAGS + ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/include' % os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    s = p.stdout; out = []; i = 0
    while True:
        i = s.find('{', i)
        if i < 0: break
        o, i = _dec.raw_decode(s, i); out.append(o)
    return out

class Fn:
    def __init__(self, node, qual, cls, tu):
        self.node, self.qual, self.cls, self.tu = node, qual, cls, tu
        self.name = node.get('name', '')
        self.kind = node['kind']
        self.params = [c for c in node.get('inner', []) if c and c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c and c['kind'] in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in node.get('inner', []) if c and c['kind'] == 'CXXCtorInitializer']
        self.virtual = node.get('virtual', False)
        self.pure = node.get('pure', False)
        self.static = node.get('storageClass') == 'static'
        self.type = node.get('type', {}).get('qualType', '')
        self.mangled = node.get('mangledName')
        self.implicit = node.get('isImplicit', False) or node.get('explicitlyDefaulted')
        self.id = node['id']
    def __repr__(self): return '<Fn %s %s>' % (self.qual, self.type)
    def loc(self):
        def find(n):
            l = n.get('loc', {}) or {}
            return l.get('line') or (l.get('spellingLoc') or {}).get('line')
        return find(self.node)

class Cls:
    def __init__(self, name, qual, node):
        self.name, self.qual, self.node = name, qual, node
        self.bases = []; self.fields = []; self.methods = []; self.poly = False
        self.targs = []

class TU:
    def __init__(self, path):
        self.path = path
        self.decl = {}      # id -> node
        self.fn_by_id = {}; self.fns = []; self.classes = {}; self.enums = {}; self.vars = {}; self.fields = {}
        self.typedefs = {}; self.prev = {}; self.parent_cls = {}
        self.docs = []
        for filt in ('k52', '(anonymous'):
            try: docs = clang_dump(path, filt)
            except ExtractError:
                if filt == 'k52': raise
                docs = []
            for d in docs: self.walk(d, [], None)
        self._flush_docs = None
    def late(self, name):
        """declarations outside namespace k52 that the code refers to"""
        if not hasattr(self, '_late'): self._late = set()
        if name in self._late: return
        self._late.add(name)
        for d in clang_dump(self.path, name):
            if d.get('kind') in ('FunctionDecl', 'VarDecl') and d.get('name') == name: self.walk(d, [''], None)
    def walk(self, n, ns, cls):
        if not n or 'kind' not in n: return
        k = n['kind']; nid = n.get('id')
        if nid: self.decl[nid] = n
        if n.get('previousDecl'): self.prev[nid] = n['previousDecl']
        if k == 'NamespaceDecl':
            for c in n.get('inner', []): self.walk(c, ns + [n.get('name', '')], cls)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if not hasattr(self, 'rec_ns'): self.rec_ns = {}
            # a nested class defined outside its class is named as it was declared
            ns = self.rec_ns.get(n.get('previousDecl'), ns); self.rec_ns[nid] = ns
            if not n.get('completeDefinition'): return
            nm = n.get('name') or 'anon'
            targs = [c['type'].get('desugaredQualType', c['type']['qualType']) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument' and 'type' in c]
            c = Cls(nm, '::'.join(ns + [nm]), n); c.targs = targs
            c.tparams = None
            c.poly = n.get('definitionData', {}).get('isPolymorphic', False)
            c.bases = [(b['type'].get('desugaredQualType', b['type']['qualType'])) for b in n.get('bases', [])]
            key = nm if k == 'CXXRecordDecl' else (nm, tuple(targs))
            if k == 'CXXRecordDecl' and cls is not None and isinstance(cls.key, tuple): key = (nm, cls.key[1])
            c.key = key
            dependent = getattr(self, '_in_template', False)
            if not dependent: self.classes[key] = c
            for m in n.get('inner', []):
                if m and m.get('kind') == 'FieldDecl': c.fields.append(m); self.fields[m['id']] = (c, m)
            if isinstance(key, tuple) and k != 'CXXRecordDecl' and not dependent:
                # unqualified names of nested classes are spelled out
                for nn in {m.get('name') for m in n.get('inner', []) if m and m.get('kind') == 'CXXRecordDecl' and m.get('name') and m.get('name') != nm}:
                    full = '%s<%s>::%s' % (nm, ', '.join(targs), nn)
                    _requalify(n, re.compile(r'(?<![\w:~])%s\b' % re.escape(nn)), full)
            for m in n.get('inner', []): self.walk(m, ns + [nm], c)
        elif k == 'ClassTemplateDecl':
            save = getattr(self, '_in_template', False)
            for c in n.get('inner', []):
                if not c: continue
                if c.get('kind') == 'CXXRecordDecl':
                    self._in_template = True; self.walk(c, ns, cls); self._in_template = save
                elif c.get('kind') == 'ClassTemplateSpecializationDecl': self.walk(c, ns, cls)
        elif k == 'FunctionTemplateDecl':
            if not hasattr(self, 'tmpl'): self.tmpl = {}
            # a member template defined outside its class is named as it was declared
            if n.get('previousDecl') in self.tmpl: ns, cls = self.tmpl[n['previousDecl']]
            self.tmpl[nid] = (ns, cls)
            first = True
            for c in n.get('inner', []):
                if c and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if first: first = False; continue     # the pattern itself
                    self.walk(c, ns, cls)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if getattr(self, '_in_template', False): return
            pcls = cls
            qual = '::'.join(ns + [n.get('name', '')])
            p = n.get('previousDecl')
            if p and p in self.fn_by_id:
                pf = self.fn_by_id[p]; pcls = pf.cls; qual = pf.qual
            f = Fn(n, qual, pcls, self)
            if p and p in self.fn_by_id:
                f.virtual = f.virtual or self.fn_by_id[p].virtual; f.static = f.static or self.fn_by_id[p].static
            self.fn_by_id[nid] = f; self.fns.append(f)
            if pcls is not None and cls is not None: pcls.methods.append(f)
            for pm in f.params: self.decl[pm['id']] = pm
            self._locals(n, ns)
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    val = None
                    def cv(x):
                        if x.get('kind') == 'ConstantExpr' and 'value' in x: return int(x['value'])
                        for y in x.get('inner', []):
                            r = cv(y)
                            if r is not None: return r
                        if x.get('kind') == 'IntegerLiteral': return int(x['value'])
                    val = cv(c)
                    v = val if val is not None else v + 1
                    self.enums[c['id']] = v; self.decl[c['id']] = c
            self.typedefs['enum ' + (n.get('name') or '?')] = I32
            if n.get('name'): self.enums[n['name']] = True
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n.get('type', {})
            self.typedefs.setdefault('::'.join(ns + [n['name']]), t.get('desugaredQualType', t.get('qualType')))
            if t.get('qualType', '').startswith('enum ') or '(unnamed enum' in t.get('qualType', '') or '(anonymous enum' in t.get('qualType', ''):
                self.enums[n['name']] = True
        elif k == 'VarDecl':
            self.vars[nid] = ('::'.join(ns + [n['name']]), n)
        elif k == 'LinkageSpecDecl':
            for c in n.get('inner', []): self.walk(c, ns, cls)
    def _locals(self, n, ns):
        stack = list(n.get('inner', []))
        while stack:
            x = stack.pop()
            if not x: continue
            if x.get('kind') in ('VarDecl', 'ParmVarDecl'): self.decl[x['id']] = x
            if x.get('kind') in ('CXXRecordDecl', 'EnumDecl', 'TypedefDecl'): self.walk(x, ns + ['local'], None)
            stack.extend(x.get('inner', []) or [])

class Program:
    """several translation units; functions are looked up by qualified name over all of them"""
    def __init__(self, paths):
        paths = [p if p.startswith('/') else os.path.join(REPO, p) for p in paths]
        with cf.ThreadPoolExecutor(8) as ex: self.tus = list(ex.map(TU, paths))
        self.bodies = {}       # mangled -> Fn with body
        self.byqual = {}
        for tu in self.tus:
            for f in tu.fns:
                self.byqual.setdefault(f.qual, []).append(f)
                if f.body is not None and f.mangled: self.bodies.setdefault(f.mangled, f)
        self.cls = {}
        for tu in self.tus:
            for k, c in tu.classes.items():
                if k not in self.cls: self.cls[k] = c; c.tu = tu
        self.enumnames = set()
        self.typedefs = {}
        for tu in self.tus:
            self.enumnames |= {e for e in tu.enums if isinstance(e, str)}
            for k, v in tu.typedefs.items(): self.typedefs.setdefault(k, v)
        self.subclasses = {}
        self._rf = {}; self._tc = {}
        for c in self.cls.values():
            for b in c.bases:
                self.subclasses.setdefault(self.clskey(b), []).append(c.key)
    # ---- functions
    def find(self, qual, sig=None, nparams=None, need_body=True):
        out = []; seen = set()
        for f in self.byqual.get(qual, []):
            g = self.body_of(f) if need_body else f
            if g is None or g.id in seen: continue
            if g.mangled in seen: continue
            seen.add(g.id); seen.add(g.mangled)
            if sig is not None and sig not in g.type: continue
            if nparams is not None and len(g.params) != nparams: continue
            out.append(g)
        return out
    def body_of(self, f):
        if f.body is not None or (f.kind == 'CXXConstructorDecl' and f.inits): return f
        if f.mangled and f.mangled in self.bodies: return self.bodies[f.mangled]
        return None
    # ---- classes
    def clskey(self, s):
        t = self.ptype(s)
        return t.a
    def bases(self, key):
        c = self.cls.get(key)
        if c is None: return []
        return [self.clskey(b) for b in c.bases]
    def is_sub(self, a, b):
        if a == b: return True
        return any(self.is_sub(x, b) for x in self.bases(a))
    def all_fields(self, key):
        """[(owner key, field name, type)] including bases"""
        if key in self._rf: return self._rf[key]
        c = self.cls.get(key)
        if c is None: raise ExtractError('unknown class %s' % (key,))
        out = []
        for b in c.bases: out += [x for x in self.all_fields(self.clskey(b)) if x not in out]
        for f in c.fields:
            out.append((key, f['name'], self.type_of(f)))
        self._rf[key] = out
        return out
    def rec_fields(self, t):
        return [(n, ft) for _, n, ft in self.all_fields(t.a)]
    # ---- types
    def type_of(self, node):
        t = node.get('type', {})
        return self.ptype(t.get('desugaredQualType', t.get('qualType', 'void')))
    def raw(self, node):
        t = node.get('type', {})
        return t.get('desugaredQualType', t.get('qualType', ''))
    def ptype(self, s):
        if s not in self._tc: self._tc[s] = self._ptype(s)
        return self._tc[s]
    def _ptype(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', ' ', s).strip()
        s = re.sub(r'\s+', ' ', s)
        while s.endswith('&'): s = s[:-1].strip()
        if s in ('fftw_complex *', 'fftw_complex*') or re.match(r'double \(\*\)\[2\]', s): return REF('fftw_complex[]')
        if s.endswith('*'):
            inner = self._ptype(s[:-1])
            if s[:-1].strip() == 'char': return STR
            if inner.k == 'ref' and re.search(r'shared_ptr( ?<.*>)?$', s[:-1].strip()): return REF(('$slot', inner.a))   # address of a shared pointer
            if inner.k in ('ref', 'rec'): return REF(inner.a)
            if inner.k == 'vec' and inner.args[0].k == 'str': return REF('$list')
            return T('ptr', None, [inner])
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m:
            if m.group(1).strip() == 'char': return STR
            return VEC(self._ptype(m.group(1)))
        base = s; args = None
        i = s.find('<')
        if i >= 0 and '::' in s[_close(s, i) + 1:]:
            # nested name of a template: vector<...>::size_type etc.
            tail = s[_close(s, i) + 1:].split('::')[-1]
            head = s[:_close(s, i) + 1]
            if tail in ('size_type', 'difference_type'): return U64 if tail == 'size_type' else I64
            if tail in ('value_type', 'reference', 'const_reference'):
                ht = self._ptype(head)
                if ht.k == 'vec': return ht.args[0]
            if tail in ('iterator', 'const_iterator'): return T('iter')
            if tail == 'shared_ptr': return REF(self._ptype(head).a)
            ht = None
            key = (head.split('<')[0].split('::')[-1])
            td = self.typedefs.get(s)
            if td: return self._ptype(td)
            # nested class of a template specialisation
            if tail in self.cls: return T('rec', tail)
            hargs = _split(head[head.find('<') + 1:_close(head, head.find('<'))])
            for k in self.cls:
                if isinstance(k, tuple) and k[0] == tail and len(k[1]) == len(hargs) and all(self._same(a, b) for a, b in zip(k[1], hargs)): return T('rec', k)
            return OPQ(s)
        if i >= 0:
            base = s[:i]; args = _split(s[i + 1:_close(s, i)])
        last = base.split('::')[-1].strip()
        if args is None:
            prim = {'unsigned long': U64, 'size_t': U64, 'size_type': U64, 'unsigned long long': U64, 'long': I64, 'long long': I64,
                    'difference_type': I64, 'ptrdiff_t': I64, 'int': I32, 'unsigned int': U32, 'char': INT(8, True), 'unsigned char': INT(8, False),
                    'short': INT(16, True), 'bool': BOOL, 'double': REAL, 'float': REAL, 'long double': REAL, 'void': VOID, 'unsigned': U32,
                    'std::streamsize': I64, 'streamsize': I64, 'uint32_t': U32, 'int64_t': I64, 'uint64_t': U64, 'int32_t': I32, 'time_t': I64, '__int128': INT(128, True)}
            if s in prim: return prim[s]
            if last in prim and (base.startswith('std::') or '::' not in base): return prim[last]
            if last == 'ChromosomeType': return VEC(BOOL)
            if last in ('_Bit_iterator', '_Bit_const_iterator', '_Bit_iterator_base', 'iterator', 'const_iterator'): return T('iter')
            if last == '_Bit_reference': return BOOL
            if last == 'string': return STR
            if last in ('nullptr_t', 'NULL TYPE'): return REF(None)
            if last in ('fftw_complex',): return T('arr2')
            if last == 'shared_ptr' and '::' in base:
                o = base.split('::')[-2]
                if o in self.cls or True: return REF(o)
            if last in self.enumnames or base in self.enumnames or '(unnamed enum' in s or '(anonymous enum' in s: return I32
            if last in self.cls: return T('rec', last)
            if base in self.typedefs and self.typedefs[base] != s: return self._ptype(self.typedefs[base])
            cand = [v for k, v in self.typedefs.items() if k.endswith('::' + base)]
            if cand and cand[0] != s: return self._ptype(cand[0])
            if '::' in base:
                cand = [v for k, v in self.typedefs.items() if k.split('::')[-2:] == base.split('::')[-2:]]
                if cand and cand[0] != s: return self._ptype(cand[0])
            if last in ('exception', 'logic_error', 'runtime_error', 'invalid_argument', 'out_of_range', 'bad_alloc', 'bad_cast', 'domain_error', 'length_error', 'range_error', 'ptree_bad_path', 'ptree_bad_data'): return T('exc', last)
            if last == 'mutex': return T('rec', '$mutex', (), [('locked', BOOL)])
            if last in ('ptree',): return OPQ('ptree')
            return OPQ(last)
        if last in ('vector', 'list', 'deque', 'queue'): return VEC(self._ptype(args[0]))
        if last == 'complex': return CX
        if last == 'basic_string': return STR
        if last in ('shared_ptr', 'scoped_ptr', 'auto_ptr', 'unique_ptr', 'weak_ptr'):
            it = self._ptype(args[0]); return REF(it.a if it.k in ('rec', 'ref', 'opq') else repr(it))
        if last in ('pair',):
            a, b = self._ptype(args[0]), self._ptype(args[1])
            return T('rec', 'pair', (a, b), [('first', a), ('second', b)])
        if last in ('tuple',):
            ts = [self._ptype(x) for x in args if 'null_type' not in x]
            return T('rec', 'tuple', tuple(ts), [('t%d' % i, x) for i, x in enumerate(ts)])
        if last in ('map', 'unordered_map'): return MAP(self._ptype(args[0]), self._ptype(args[1]))
        if last in ('__normal_iterator', '_List_iterator', '_List_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', 'iterator', 'c_iterator'): return T('iter', last)
        if last in ('_Bit_iterator',): return T('iter')
        # template class of the repository
        for k in self.cls:
            if isinstance(k, tuple) and k[0] == last and len(k[1]) == len(args) and all(self._same(a, b) for a, b in zip(k[1], args)):
                return T('rec', k)
        if last in ('unique_lock', 'lock_guard'): return OPQ('lock')
        return OPQ(s)
    def _same(self, a, b):
        f = lambda x: re.sub(r'\s+', '', re.sub(r'\bstd::|boost::|\w+::', '', x))
        if f(a) == f(b): return True
        try: x, y = self.ptype(a), self.ptype(b)
        except ExtractError: return False
        return x == y and 'opq' not in repr(x)

def _requalify(n, rx, full):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k in ('qualType', 'desugaredQualType'):
                if isinstance(x.get(k), str) and rx.search(x[k]): x[k] = rx.sub(lambda m: full, x[k])
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(x)
def _close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<': d += 1
        elif s[j] == '>':
            d -= 1
            if d == 0: return j
    return len(s) - 1
def _split(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
