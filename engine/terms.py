"""Sorts, values and term helpers of the verification condition generator (z3 terms)."""
import z3, itertools

_ctr = itertools.count()
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)

class T:
    """Model type: what a C++ type is represented by."""
    __slots__ = ('k', 'a', 'args', 'extra')
    def __init__(self, k, a=None, args=(), extra=None):
        self.k, self.a, self.args, self.extra = k, a, tuple(args), extra
    def __eq__(self, o): return isinstance(o, T) and (self.k, self.a, self.args) == (o.k, o.a, o.args)
    def __hash__(self): return hash((self.k, self.a, self.args))
    def __repr__(self):
        return self.k + ('' if self.a is None else ':%s' % (self.a,)) + (('<%s>' % ','.join(map(repr, self.args))) if self.args else '')

BOOL = T('bool'); REAL = T('real'); CX = T('cx'); STR = T('str'); VOID = T('void')
def INT(bits, signed): return T('int', (bits, signed))
I32 = INT(32, True); U32 = INT(32, False); I64 = INT(64, True); U64 = INT(64, False)
def VEC(e): return T('vec', None, [e])
def REF(c): return T('ref', c)
def MAP(k, v): return T('map', None, [k, v])
OPQ = lambda n: T('opq', n)

CxSort = z3.Datatype('Cx'); CxSort.declare('cx', ('re', z3.RealSort()), ('im', z3.RealSort())); CxSort = CxSort.create()
cx, re_, im_ = CxSort.cx, CxSort.re, CxSort.im

class Ctx:
    """Sort context; bv=True represents integers as bit vectors (bit-precise mode)."""
    def __init__(self, bv=False, classes=None):
        self.bv = bv
        self.vecs = {}; self.recs = {}; self.maps = {}
        self.classes = classes
    def isort(self): return z3.BitVecSort(64) if self.bv else z3.IntSort()
    def ival(self, n): return z3.BitVecVal(n, 64) if self.bv else z3.IntVal(n)
    def sort(self, t):
        k = t.k
        if k == 'bool': return z3.BoolSort()
        if k == 'int': return z3.BitVecSort(t.a[0]) if self.bv else z3.IntSort()
        if k == 'real': return z3.RealSort()
        if k == 'cx': return CxSort
        if k == 'str': return z3.StringSort()
        if k in ('ref', 'opq', 'void', 'fn', 'iterval') or k == 'ptr' and t.args[0].k == 'opq': return z3.IntSort()
        if k == 'vec': return self.vec(t)[0]
        if k == 'rec': return self.rec(t)[0]
        if k == 'map': return self.map(t)[0]
        raise KeyError('no sort for %r' % (t,))
    def vec(self, t):
        if t not in self.vecs:
            es = self.sort(t.args[0])
            d = z3.Datatype('Vec_%d' % len(self.vecs) + ('b' if self.bv else ''))
            d.declare('mk', ('len', self.isort()), ('arr', z3.ArraySort(self.isort(), es)))
            s = d.create()
            self.vecs[t] = (s, s.mk, s.len, s.arr)
        return self.vecs[t]
    def map(self, t):
        if t not in self.maps:
            ks, vs = self.sort(t.args[0]), self.sort(t.args[1])
            d = z3.Datatype('Map_%d' % len(self.maps))
            d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, vs)), ('size', z3.IntSort()))
            s = d.create(); self.maps[t] = (s, s.mk, s.dom, s.val, s.size)
        return self.maps[t]
    def recfields(self, t):
        return t.extra if t.extra is not None else self.classes.rec_fields(t)
    def rec(self, t):
        if t not in self.recs:
            fs = self.recfields(t)
            d = z3.Datatype('Rec_' + str(t.a).replace(' ', '_') + '_%d' % len(self.recs) + ('b' if self.bv else ''))
            d.declare('mk', *([(f, self.sort(ft)) for f, ft in fs] or [('none', z3.IntSort())]))
            s = d.create()
            acc = {f: s.accessor(0, i) for i, (f, ft) in enumerate(fs)}
            self.recs[t] = (s, s.mk, acc)
        return self.recs[t]
    # value helpers
    def mkvec(self, t, n, arr): return self.vec(t)[1](n, arr)
    def vlen(self, t, v):
        v = z3.simplify(v) if not _is_ctor(v) else v
        return v.arg(0) if _is_ctor(v) else self.vec(t)[2](v)
    def varr(self, t, v):
        return v.arg(1) if _is_ctor(v) else self.vec(t)[3](v)
    def vget(self, t, v, i): return sel(self.varr(t, v), i)
    def rget(self, t, v, f):
        fs = self.recfields(t)
        if _is_ctor(v):
            for i, (n, _) in enumerate(fs):
                if n == f: return v.arg(i)
        return self.rec(t)[2][f](v)
    def rset(self, t, v, f, x):
        fs = self.recfields(t)
        return self.rec(t)[1](*[x if n == f else self.rget(t, v, n) for n, _ in fs])
    def fresh(self, name, t):
        """fresh symbolic value with constructors exposed"""
        if t.k == 'cx': return cx(fresh(name + '.re', z3.RealSort()), fresh(name + '.im', z3.RealSort()))
        if t.k == 'vec':
            return self.mkvec(t, fresh(name + '.len', self.isort()), fresh(name + '.arr', z3.ArraySort(self.isort(), self.sort(t.args[0]))))
        if t.k == 'rec':
            fs = self.recfields(t)
            if not fs: return self.rec(t)[1](z3.IntVal(0))
            return self.rec(t)[1](*[self.fresh(name + '.' + f, ft) for f, ft in fs])
        if t.k == 'map':
            s = self.map(t)
            return s[1](fresh(name + '.dom', s[2].range()), fresh(name + '.val', s[3].range()), fresh(name + '.size', z3.IntSort()))
        return fresh(name, self.sort(t))
    def wf(self, t, v, alloc=None, depth=0):
        """well-formedness facts that hold of every value of the C++ type"""
        out = []
        if t.k == 'int' and not self.bv:
            b, s = t.a
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            if not z3.is_int_value(v): out += [v >= lo, v <= hi]
        elif t.k == 'ref':
            out += [v >= 0] + ([v <= alloc] if alloc is not None else [])
        elif t.k == 'vec':
            n = self.vlen(t, v)
            if self.bv: out += [z3.ULE(n, z3.BitVecVal(1 << 60, 64))]
            elif not z3.is_int_value(n): out += [n >= 0, n <= (1 << 60)]
            e = t.args[0]
            if depth < 2 and e.k in ('int', 'ref', 'vec', 'rec') and not self.bv:
                i = fresh('wi', z3.IntSort())
                sub = self.wf(e, self.vget(t, v, i), alloc, depth + 1)
                if sub: out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*sub))))
        elif t.k == 'rec':
            for f, ft in self.recfields(t): out += self.wf(ft, self.rget(t, v, f), alloc, depth)
        elif t.k == 'map':
            out += [self.map(t)[4](v) >= 0]
        return out
    def default(self, t):
        """value-initialised value"""
        if t.k == 'bool': return z3.BoolVal(False)
        if t.k == 'int': return z3.BitVecVal(0, t.a[0]) if self.bv else z3.IntVal(0)
        if t.k == 'real': return z3.RealVal(0)
        if t.k == 'cx': return cx(z3.RealVal(0), z3.RealVal(0))
        if t.k == 'ref': return z3.IntVal(0)
        if t.k == 'opq': return z3.IntVal(0)
        if t.k == 'str': return z3.StringVal('')
        if t.k == 'vec':
            e = t.args[0]
            return self.mkvec(t, self.ival(0), z3.K(self.isort(), self.default(e)))
        if t.k == 'rec':
            fs = self.recfields(t)
            if not fs: return self.rec(t)[1](z3.IntVal(0))
            return self.rec(t)[1](*[self.default(ft) for f, ft in fs])
        if t.k == 'map':
            ks, vs = self.sort(t.args[0]), self.sort(t.args[1])
            return self.map(t)[1](z3.K(ks, z3.BoolVal(False)), z3.K(ks, self.default(t.args[1])), z3.IntVal(0))
        raise KeyError('no default for %r' % (t,))
    def eq(self, t, a, b):
        """deep equality of values (vectors: same length, equal elements in range)"""
        if a.eq(b): return z3.BoolVal(True)
        if t.k == 'vec':
            n, m = self.vlen(t, a), self.vlen(t, b)
            i = fresh('e', self.isort())
            rng = z3.And(0 <= i, i < n) if not self.bv else z3.ULT(i, n)
            return z3.And(n == m, z3.ForAll([i], z3.Implies(rng, self.eq(t.args[0], self.vget(t, a, i), self.vget(t, b, i)))))
        if t.k == 'rec':
            return z3.And(*[self.eq(ft, self.rget(t, a, f), self.rget(t, b, f)) for f, ft in self.recfields(t)] or [z3.BoolVal(True)])
        if t.k == 'cx':
            return z3.And(cre(a) == cre(b), cim(a) == cim(b))
        if t.k == 'map':
            M = self.map(t); k = fresh('k', self.sort(t.args[0]))
            return z3.And(M[4](a) == M[4](b), z3.ForAll([k], z3.And(sel(M[2](a), k) == sel(M[2](b), k), z3.Implies(sel(M[2](a), k), self.eq(t.args[1], sel(M[3](a), k), sel(M[3](b), k))))))
        return a == b

def _is_ctor(v):
    return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR

def cre(v): return v.arg(0) if _is_ctor(v) else re_(v)
def cim(v): return v.arg(1) if _is_ctor(v) else im_(v)

def is_lambda(a): return z3.is_quantifier(a) and a.is_lambda()

def sel(a, i):
    """array read with beta reduction and read-over-write at syntactically decidable indices"""
    while True:
        if is_lambda(a): return z3.substitute_vars(a.body(), i)
        if z3.is_app(a):
            kk = a.decl().kind()
            if kk == z3.Z3_OP_STORE:
                j = a.arg(1)
                if j.eq(i): return a.arg(2)
                if distinct_syn(i, j): a = a.arg(0); continue
            elif kk == z3.Z3_OP_CONST_ARRAY: return a.arg(0)
            elif kk == z3.Z3_OP_ITE:
                x, y = sel(a.arg(1), i), sel(a.arg(2), i)
                if x.eq(y): return x
                return z3.If(a.arg(0), x, y)
        return z3.Select(a, i)

def distinct_syn(i, j):
    if z3.is_int_value(i) and z3.is_int_value(j): return i.as_long() != j.as_long()
    if z3.is_bv_value(i) and z3.is_bv_value(j): return i.as_long() != j.as_long()
    if i.sort() == z3.IntSort():
        d = z3.simplify(i - j)
        return z3.is_int_value(d) and d.as_long() != 0
    if i.sort_kind() == z3.Z3_BV_SORT:
        d = z3.simplify(i - j)
        return z3.is_bv_value(d) and d.as_long() != 0
    return False

def sto(a, i, v):
    return z3.Store(a, i, v)

def lam(sort, f, name='l'):
    x = fresh(name, sort)
    return z3.Lambda([x], f(x))

def forall(sort_or_n, f, name='q'):
    x = fresh(name, sort_or_n if not isinstance(sort_or_n, str) else z3.IntSort())
    return z3.ForAll([x], f(x))

def forall_range(lo, hi, f, name='q'):
    x = fresh(name, z3.IntSort())
    return z3.ForAll([x], z3.Implies(z3.And(lo <= x, x < hi), f(x)))
def exists_range(lo, hi, f, name='q'):
    x = fresh(name, z3.IntSort())
    return z3.Exists([x], z3.And(lo <= x, x < hi, f(x)))

# finite sums; Sum(f, lo, hi) = f(lo) + ... + f(hi-1), 0 when hi <= lo
ISORT = z3.IntSort(); RSORT = z3.RealSort()
SumR = z3.Function('SumR', z3.ArraySort(ISORT, RSORT), ISORT, ISORT, RSORT)
SumI = z3.Function('SumI', z3.ArraySort(ISORT, ISORT), ISORT, ISORT, ISORT)
def Sum(f, lo, hi):
    """f: python function Int -> Real/Int term"""
    x = fresh('s', ISORT); b = f(x)
    a = z3.Lambda([x], b)
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    return (SumR if b.sort() == RSORT else SumI)(a, lo, hi)

# uninterpreted mathematical functions
R1 = lambda n: z3.Function(n, RSORT, RSORT)
f_exp, f_sin, f_cos, f_sqrt, f_log, f_asin = [R1('m_' + n) for n in ('exp', 'sin', 'cos', 'sqrt', 'log', 'asin')]
f_pow = z3.Function('m_pow', RSORT, RSORT, RSORT)
f_ipow = z3.Function('m_ipow', RSORT, ISORT, RSORT)    # base ** integer exponent
PI = z3.Real('PI')

# named definitions: opaque symbols in contracts, expanded by the solver where the proof needs it
DEFS = {}
def define(name, sorts, body):
    """a total, non-recursive definition; body: python function of the arguments"""
    if name in DEFS: return DEFS[name][0]
    vs = [z3.Var(i, s) for i, s in enumerate(sorts)]
    xs = [fresh('d', s) for s in sorts]; b = body(*xs)
    F = z3.Function(name, *sorts, b.sort())
    DEFS[name] = (F, z3.substitute(b, *zip(xs, vs)), (xs, b))
    return F
def uses_defs(e, n=None): return bool(DEFS) and any(z3.is_app(x) and (x.decl().name() == n if n else x.decl().name() in DEFS) for x in subterms(e))
def expand(e, names=None):
    fs = [(F, b) for n, (F, b, _) in DEFS.items() if names is None or n in names]
    while any(uses_defs(e, F.name()) for F, _ in fs): e = z3.substitute_funs(e, *fs)
    return e

# facts about uninterpreted functions, instantiated at every ground application
FACTS = {}

def rabs(x): return z3.If(x >= 0, x, -x)
def toreal(x): return z3.ToReal(x) if x.sort() == ISORT else x

def subterms(e, seen=None):
    seen = seen if seen is not None else set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack.extend(x.children())

def has_const(e, names_ids):
    for x in subterms(e):
        if z3.is_const(x) and x.get_id() in names_ids: return True
    return False
def occurs(e, c):
    cid = c.get_id()
    return any(x.get_id() == cid for x in subterms(e))
