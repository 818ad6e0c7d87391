"""Symbolic execution of clang ASTs with contracts, loop summaries and proof obligations."""
import z3, itertools, time, fractions
from .terms import *
from .cxx import Fn, ExtractError, REPO

class Unsupported(Exception): pass
class CxxThrow(Exception):
    def __init__(self, exc): self.exc = exc
class Infeasible(Exception): pass

class Loc:
    __slots__ = ('root', 'path', 't')
    def __init__(self, root, path, t): self.root, self.path, self.t = root, tuple(path), t
    def __repr__(self): return 'Loc(%r,%r,%r)' % (self.root, self.path, self.t)
    def sub(self, step, t): return Loc(self.root, self.path + (step,), t)
class It:
    """iterator: container location and index; map iterators carry the visited set instead"""
    __slots__ = ('loc', 'idx', 'kind', 'extra')
    def __init__(self, loc, idx, kind='vec', extra=None): self.loc, self.idx, self.kind, self.extra = loc, idx, kind, extra
class Ptr:
    """address of a non-heap object"""
    __slots__ = ('loc',)
    def __init__(self, loc): self.loc = loc
class FnVal:
    def __init__(self, node, decl): self.node, self.decl = node, decl
class Exc:
    def __init__(self, t): self.t = t
class Opaque:
    def __init__(self, what, data=None): self.what, self.data = what, data
    def __repr__(self): return 'Opaque(%s)' % self.what

EXC_BASE = {'invalid_argument': 'logic_error', 'out_of_range': 'logic_error', 'domain_error': 'logic_error', 'length_error': 'logic_error',
            'logic_error': 'exception', 'runtime_error': 'exception', 'range_error': 'runtime_error', 'bad_alloc': 'exception', 'bad_cast': 'exception', 'exception': None}
def exc_is(a, b):
    while a is not None:
        if a == b: return True
        a = EXC_BASE.get(a)
    return False

class State:
    __slots__ = ('cells', 'heap', 'pc', 'alloc', 'this', 'dec', 'dpos', 'ndec', 'alts', 'log', 'locks', 'fn')
    def __init__(self):
        self.cells = {}; self.heap = {}; self.pc = []; self.alloc = z3.IntVal(0); self.this = None
        self.dec = []; self.dpos = 0; self.ndec = 0; self.alts = []; self.log = None; self.locks = (); self.fn = None
    def copy(self):
        s = State(); s.cells = dict(self.cells); s.heap = dict(self.heap); s.pc = list(self.pc); s.alloc = self.alloc
        s.this = self.this; s.log = list(self.log) if self.log is not None else None; s.locks = self.locks; s.fn = self.fn
        return s
    def become(self, o):
        self.cells, self.heap, self.pc, self.alloc, self.this, self.log, self.locks, self.fn = dict(o.cells), dict(o.heap), list(o.pc), o.alloc, o.this, (list(o.log) if o.log is not None else None), o.locks, o.fn
    def assume(self, *fs):
        for f in fs:
            if f is True or (not isinstance(f, bool) and z3.is_true(f)): continue
            self.pc.append(('f', f if not isinstance(f, bool) else z3.BoolVal(f)))
    def decide(self, f):
        if z3.is_true(f): return
        self.pc.append(('d', f))
    def facts(self): return [f for _, f in self.pc]

class Obl:
    def __init__(self, fn, name, kind, hyps, goal, line, trusted=()):
        self.fn, self.name, self.kind, self.hyps, self.goal, self.line = fn, name, kind, hyps, goal, line
        self.status = None; self.time = 0; self.backend = None; self.model = None

def node_line(n):
    r = n.get('range', {}).get('begin', {})
    for x in (r, r.get('expansionLoc', {}), n.get('loc', {})):
        if 'line' in x: return x['line']
    return None

class Exec:
    MAXINLINE = 12
    def __init__(self, prog, ctx, registry, unroll=0):
        self.prog, self.ctx, self.reg = prog, ctx, registry
        self.obs = []; self.dry = 0
        self.cur = '?'
        self.unroll = unroll
        self.trusted = set(); self.used_contracts = set(); self.inlined = set()
        self.depth = 0; self.qcache = {}
        self.tmp = itertools.count()
        self.rtypes = {}
        self.loop_specs = []; self.exposed = {}
        self.line = None
        self.ghost_t = {}
        self.notes = set()
        self.call_stack = []
    # ------------------------------------------------------------------ solver shortcuts
    def quick(self, st, f, ms=150):
        """True if f is implied by the quantifier-free facts"""
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f): return True
        if z3.is_false(f) and not st.pc: return False
        fs = [g for g in st.facts() if not has_quant(g)]
        key = (tuple(g.get_id() for g in fs), f.get_id())
        if key in self.qcache: return self.qcache[key][0]
        s = z3.Solver(); s.set('timeout', ms)
        if not self.ctx.bv: fs = relevant(fs, f)
        s.add(*fs); s.add(z3.Not(f))
        r = s.check() == z3.unsat
        self.qcache[key] = (r, fs, f)
        return r
    def feasible(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return not self.quick(st, z3.Not(f), 200)
    def ob(self, st, name, goal, kind='safety', node=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not self.dry and st.dpos >= st.ndec:
            line = node_line(node) if node is not None else None
            self.obs.append(Obl(self.cur, name, kind, st.facts(), goal, line or self.line))
        if not z3.is_true(goal): st.assume(goal)
    # ------------------------------------------------------------------ choice / exploration
    def choose(self, st, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if st.dpos < len(st.dec):
            d = st.dec[st.dpos]; st.dpos += 1
        else:
            ft = self.feasible(st, cond); ff = self.feasible(st, z3.Not(cond))
            if not ft and not ff: raise Infeasible()
            d = ft
            if ft and ff: st.alts.append(list(st.dec[:st.dpos]) + [False])
            st.dec = list(st.dec[:st.dpos]) + [d]; st.dpos += 1
        st.decide(cond if d else z3.Not(cond))
        return d
    def choose_n(self, st, n):
        """unconditional choice among n prepared outcomes"""
        if n == 1: return 0
        if st.dpos < len(st.dec):
            d = st.dec[st.dpos]; st.dpos += 1; return d
        for i in range(1, n): st.alts.append(list(st.dec[:st.dpos]) + [i])
        st.dec = list(st.dec[:st.dpos]) + [0]; st.dpos += 1
        return 0
    def explore(self, st, fn):
        outs = []; pending = [[]]
        while pending:
            dec = pending.pop()
            s = st.copy(); s.dec = list(dec); s.dpos = 0; s.ndec = len(dec); s.alts = []
            try:
                v = fn(s); outs.append((s, 'next', v))
            except CxxThrow as e: outs.append((s, 'throw', e.exc))
            except Infeasible: pass
            pending.extend(s.alts)
            if len(outs) > 400: raise Unsupported('too many paths')
        for s, _, _ in outs: s.dec = []; s.dpos = 0; s.ndec = 0; s.alts = []
        return outs
    # ------------------------------------------------------------------ merging
    def merge(self, base, states, vals=None):
        """merge normal states that extend base; returns (state, value) or None"""
        if len(states) == 1: return states[0], (vals[0] if vals else None)
        nb = len(base.pc)
        conds = []
        for s in states:
            if len(s.pc) < nb or any(s.pc[i][1] is not base.pc[i][1] for i in range(nb)): return None
            ds = [f for t, f in s.pc[nb:] if t == 'd']
            conds.append(z3.And(*ds) if len(ds) != 1 else ds[0]) if ds else conds.append(z3.BoolVal(True))
        m = states[0].copy(); m.pc = list(base.pc)
        def comb(vs):
            if all(same(v, vs[0]) for v in vs): return vs[0]
            if all(isinstance(v, It) for v in vs):
                if all(sameloc(v.loc, vs[0].loc) and v.kind == vs[0].kind and v.kind == 'vec' for v in vs):
                    return It(vs[0].loc, comb([v.idx for v in vs]))
                if all(sameloc(v.loc, vs[0].loc) and v.kind == 'mapit' for v in vs):
                    return It(vs[0].loc, comb([v.idx for v in vs]), 'mapit', (comb([v.extra[0] for v in vs]), comb([v.extra[1] for v in vs])))
                raise Unsupported('merge')
            if any(not isinstance(v, z3.ExprRef) for v in vs): raise Unsupported('merge')
            srt = vs[0].sort()
            if any(v.sort() != srt for v in vs): raise Unsupported('merge')
            return self.ite_many(conds, vs)
        try:
            ks = set()
            for s in states: ks |= set(s.cells)
            for k in ks:
                if any(k not in s.cells for s in states):
                    if k[0] not in ('V', 'G'): m.cells.pop(k, None); continue
                    init = self.reg.initial_global(self, k)
                    m.cells[k] = comb([s.cells.get(k, init) for s in states]); continue
                m.cells[k] = comb([s.cells[k] for s in states])
            hk = set()
            for s in states: hk |= set(s.heap)
            for k in hk:
                m.heap[k] = comb([s.heap[k] if k in s.heap else self.heap0(k) for s in states])
            al = [s.alloc for s in states]
            m.alloc = comb(al)
            if any(s.locks != m.locks for s in states): return None
            if any(s.fn is not m.fn for s in states): return None
            v = None
            if vals is not None: v = comb(vals) if any(x is not None for x in vals) else None
        except Unsupported:
            return None
        if not any(z3.is_true(c) for c in conds): m.pc.append(('d', z3.Or(*conds)))
        for s, c in zip(states, conds):
            fs = [f for t, f in s.pc[nb:] if t == 'f']
            seen = set()
            for f in fs:
                m.pc.append(('f', z3.Implies(c, f) if not z3.is_true(c) else f))
        if m.log is not None:
            log = []
            for s in states:
                for w in s.log:
                    if w not in log: log.append(w)
            m.log = log
        return m, v
    def ite_many(self, conds, vs):
        r = vs[-1]
        for c, v in list(zip(conds, vs))[-2::-1]: r = self.ite(c, v, r)
        return r
    def ite(self, c, a, b):
        """If with constructors kept outside"""
        if a.eq(b): return a
        from .terms import _is_ctor
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a.sort().kind() == z3.Z3_DATATYPE_SORT and a.sort().num_constructors() == 1:
            s = a.sort(); c0 = s.constructor(0)
            xs = []
            for i in range(c0.arity()):
                acc = s.accessor(0, i)
                x = a.arg(i) if _is_ctor(a) else acc(a)
                y = b.arg(i) if _is_ctor(b) else acc(b)
                xs.append(self.ite(c, x, y))
            return c0(*xs)
        ka, kb = [x.decl().kind() if z3.is_app(x) else None for x in (a, b)]
        if ka == kb == z3.Z3_OP_STORE and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
            return z3.Store(a.arg(0), a.arg(1), self.ite(c, a.arg(2), b.arg(2)))
        if is_lambda(a) and is_lambda(b):
            x = fresh('m', a.var_sort(0))
            return z3.Lambda([x], self.ite(c, sel(a, x), sel(b, x)))
        return z3.If(c, a, b)
    # ------------------------------------------------------------------ memory
    def heap0(self, key):
        """initial contents of a field of all objects"""
        if not hasattr(self, '_h0'): self._h0 = {}
        if key not in self._h0:
            t = self.field_type(key)
            self._h0[key] = z3.Const('H0_%s_%s' % key, z3.ArraySort(z3.IntSort(), self.ctx.sort(t)))
        return self._h0[key]
    def field_type(self, key):
        cls, name = key
        if name.startswith('$'): return self.reg.ghost_field_type(self, key)
        for owner, n, t in self.prog.all_fields(cls):
            if n == name: return t
        raise ExtractError('no field %s::%s' % key)
    def field_owner(self, cls, name):
        for owner, n, t in self.prog.all_fields(cls):
            if n == name: return owner, t
        raise ExtractError('no field %s in %s' % (name, cls))
    def newcell(self, st, t, v, tag='T'):
        r = (tag, next(self.tmp))
        st.cells[r] = v
        return Loc(r, (), t)
    def get_root(self, st, loc):
        if loc.root[0] == 'H':
            k = loc.root[1]
            return st.heap[k] if k in st.heap else self.heap0(k)
        if loc.root not in st.cells:
            return self.global_value(st, loc)
        return st.cells[loc.root]
    def global_value(self, st, loc):
        if loc.root[0] in ('G', 'V'):
            v = self.reg.global_value(self, st, loc)
            st.cells[loc.root] = v
            return v
        raise Unsupported('read of unset location %r' % (loc,))
    def read(self, st, loc):
        c = self.ctx
        if loc.root[0] == 'O':
            # whole heap object as a record
            t = T('rec', loc.t.a)
            fs = self.prog.all_fields(loc.t.a)
            return c.rec(t)[1](*[self.read(st, self.field(st, loc, n)) for _, n, _ in fs]) if fs else c.rec(t)[1](z3.IntVal(0))
        v = self.get_root(st, loc)
        if isinstance(v, Loc): return self.read(st, Loc(v.root, v.path + loc.path, loc.t))
        t = None
        for kind, x, vt in loc.path:
            if kind == 'o': v = sel(v, x)
            elif kind == 'f': v = c.rget(vt, v, x)
            elif kind == 'i': v = c.vget(vt, v, x)
            elif kind == 'm': v = sel(c.map(vt)[3](v) if not z3.is_app(v) or v.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR else v.arg(1), x)
            elif kind == 'len': v = c.vlen(vt, v)
            elif kind == 'arr': v = c.varr(vt, v)
            elif kind == 're': v = cre(v)
            elif kind == 'im': v = cim(v)
            else: raise Unsupported('path ' + kind)
        return v
    def write(self, st, loc, val):
        c = self.ctx
        if loc.root[0] == 'O':
            for i, (o, n, ft) in enumerate(self.prog.all_fields(loc.t.a)):
                self.write(st, self.field(st, loc, n), c.rget(T('rec', loc.t.a), val, n))
            return
        if loc.root[0] != 'H' and isinstance(st.cells.get(loc.root), Loc):
            b = st.cells[loc.root]
            return self.write(st, Loc(b.root, b.path + loc.path, loc.t), val)
        if st.log is not None: st.log.append((loc.root, loc.path))
        def upd(v, path):
            if not path: return val
            (kind, x, vt), rest = path[0], path[1:]
            if kind == 'o': return sto(v, x, upd(sel(v, x), rest))
            if kind == 'f': return c.rset(vt, v, x, upd(c.rget(vt, v, x), rest))
            if kind == 'i': return c.mkvec(vt, c.vlen(vt, v), sto(c.varr(vt, v), x, upd(c.vget(vt, v, x), rest)))
            if kind == 'm':
                M = c.map(vt); return M[1](mdom(c, vt, v), sto(mval(c, vt, v), x, upd(sel(mval(c, vt, v), x), rest)), msize(c, vt, v))
            if kind == 'len': return c.mkvec(vt, val, c.varr(vt, v))
            if kind == 'arr': return c.mkvec(vt, c.vlen(vt, v), upd(c.varr(vt, v), rest))
            if kind == 're': return cx(val, cim(v))
            if kind == 'im': return cx(cre(v), val)
            raise Unsupported('path ' + kind)
        if loc.root[0] == 'H':
            k = loc.root[1]
            st.heap[k] = upd(st.heap[k] if k in st.heap else self.heap0(k), loc.path)
        else:
            if not loc.path: st.cells[loc.root] = val
            else: st.cells[loc.root] = upd(self.get_root(st, loc), loc.path)
    def field(self, st, obj, name):
        """location of a field of an object location"""
        if isinstance(obj, Loc) and obj.root[0] not in ('O', 'H') and not obj.path and isinstance(st.cells.get(obj.root), Loc):
            b = st.cells[obj.root]; obj = Loc(b.root, b.path, b.t if b.root[0] == 'O' else obj.t)
        cls = obj.t.a
        if obj.t.k == 'rec' and obj.t.extra is not None:
            for n, ft in obj.t.extra:
                if n == name: return obj.sub(('f', name, obj.t), ft)
            raise Unsupported('field %s of %r' % (name, obj.t))
        if obj.root[0] == 'O':
            if name.startswith('$'): return Loc(('H', (cls, name)), (('o', obj.root[1], None),), self.reg.ghost_field_type(self, (cls, name)))
            owner, ft = self.field_owner(cls, name)
            if ft.k == 'rec' and self.reg.embedded and ft.a in self.reg.embedded:
                # a member object others refer to by address: an object of its own, named by its owner
                nm = name if isinstance(owner, str) else '%s.%s' % (owner[0], name)
                e = z3.Function('member_%s' % nm, z3.IntSort(), z3.IntSort())(obj.root[1])
                st.assume(e < 0, z3.Function('owner_of_member', z3.IntSort(), z3.IntSort())(e) == obj.root[1], z3.Function('which_member', z3.IntSort(), z3.IntSort())(e) == self.reg.embedded_id(nm))
                return Loc(('O', e), (), ft)
            return Loc(('H', (owner, name)), (('o', obj.root[1], None),), ft)
        owner, ft = self.field_owner(cls, name)
        return obj.sub(('f', name, obj.t), ft)
    def readwf(self, st, loc):
        """read and remember the type facts of the value"""
        v = self.read(st, loc)
        if isinstance(v, z3.ExprRef): self.remember(st, loc.t, v)
        return v
    def remember(self, st, t, v):
        if t.k in ('int', 'ref', 'vec') and not isinstance(v, (It, Ptr)):
            key = v.get_id()
            if z3.is_int_value(v): return
            if self.ctx.bv and t.k == 'int': return
            for f in self.ctx.wf(t, v, st.alloc, 2 if t.k == 'vec' else 0):
                g = z3.simplify(f)
                if not z3.is_true(g) and not any(h is f or h.eq(f) for _, h in st.pc[-40:]): st.assume(f)
    def deref(self, st, p, t, node, what='pointer is not null'):
        if isinstance(p, Ptr): return p.loc
        if isinstance(p, Loc): p = self.read(st, p)
        if isinstance(p, Ptr): return p.loc
        if not isinstance(p, z3.ExprRef): raise Unsupported('deref %r' % (p,))
        self.ob(st, what, p != 0, 'safety', node)
        if isinstance(t.a, tuple) and t.a[0] == '$slot': return Loc(('H', (t.a, '$value')), (('o', p, None),), T('ref', t.a[1]))
        if t.a == '$list': return Loc(('H', ('$list', '$data')), (('o', p, None),), VEC(STR))
        return Loc(('O', p), (), T('rec', t.a))
    # ------------------------------------------------------------------ values
    def val(self, st, x):
        if isinstance(x, Loc):
            if x.root[0] == 'O' and not x.path and x.t.a not in self.prog.cls: return x.root[1]
            if x.root[0] not in ('H', 'O') and not x.path:
                v = st.cells.get(x.root)
                if isinstance(v, (It, Ptr, FnVal, Opaque)): return v
            return self.readwf(st, x)
        return x
    def aslocs(self, st, x, t):
        if isinstance(x, Loc): return x
        return self.newcell(st, t, x)
    # ------------------------------------------------------------------ integers
    def irange(self, t):
        b, s = t.a
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    def inorm(self, st, raw, t, node, op):
        if self.ctx.bv: return raw
        raw = z3.simplify(raw) if z3.is_int_value(z3.simplify(raw)) else raw
        lo, hi = self.irange(t)
        if z3.is_int_value(raw) and lo <= raw.as_long() <= hi: return raw
        if t.a[1]:
            self.ob(st, 'no signed overflow in %s' % op, z3.And(raw >= lo, raw <= hi), 'safety', node)
            return raw
        if self.quick(st, z3.And(raw >= 0, raw <= hi)): return raw
        M = 1 << t.a[0]
        if op == '+': return z3.If(raw > hi, raw - M, raw)
        if op == '-': return z3.If(raw < 0, raw + M, raw)
        return raw % M
    def iconv(self, st, v, ft, tt, node=None):
        """integral conversion"""
        if ft.k == 'bool':
            if self.ctx.bv: return z3.If(v, z3.BitVecVal(1, tt.a[0]), z3.BitVecVal(0, tt.a[0]))
            if z3.is_true(v): return z3.IntVal(1)
            if z3.is_false(v): return z3.IntVal(0)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if self.ctx.bv:
            fb, fs = ft.a; tb, ts = tt.a
            if tb == fb: return v
            if tb < fb: return z3.Extract(tb - 1, 0, v)
            return z3.SignExt(tb - fb, v) if fs else z3.ZeroExt(tb - fb, v)
        lo, hi = self.irange(tt); flo, fhi = self.irange(ft)
        if lo <= flo and fhi <= hi: return v
        if z3.is_int_value(v):
            n = v.as_long()
            if not lo <= n <= hi:
                n &= (1 << tt.a[0]) - 1
                if tt.a[1] and n > hi: n -= 1 << tt.a[0]
            return z3.IntVal(n)
        if self.quick(st, z3.And(v >= lo, v <= hi)): return v
        M = 1 << tt.a[0]
        if not tt.a[1]: return z3.If(v < 0, v + M, v) if fhi <= hi else v % M
        return z3.If(v % M > hi, v % M - M, v % M)
    def arith(self, st, op, a, b, t, node):
        if t.k == 'real':
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if z3.is_rational_value(b) and b.as_fraction() != 0: return a / b
                return rdiv(a, b)
            raise Unsupported('real ' + op)
        if t.k == 'int':
            bits, sg = t.a
            if self.ctx.bv: return self.bvarith(st, op, a, b, t, node)
            if op in '+-*':
                raw = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
                return self.inorm(st, raw, t, node, op)
            if op in ('/', '%'):
                self.ob(st, 'divisor is not zero', b != 0, 'safety', node)
                if self.quick(st, z3.And(a >= 0, b > 0)):
                    return a / b if op == '/' else a % b
                if sg:
                    lo, hi = self.irange(t)
                    self.ob(st, 'no overflow in division', z3.Not(z3.And(a == lo, b == -1)), 'safety', node)
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
                return q if op == '/' else a - q * b
            if op in ('<<', '>>', '&', '|', '^'): return self.intbits(st, op, a, b, t, node)
        raise Unsupported('arith %s on %r' % (op, t))
    def intbits(self, st, op, a, b, t, node):
        if op in ('<<', '>>') and z3.is_int_value(z3.simplify(b)):
            n = z3.simplify(b).as_long()
            self.ob(st, 'shift amount in range', 0 <= n < t.a[0], 'safety', node)
            return self.inorm(st, a * (1 << n), t, node, '<<') if op == '<<' else a / (1 << n)
        raise Unsupported('bit operation %s on mathematical integers' % op)
    def bvarith(self, st, op, a, b, t, node):
        bits, sg = t.a
        if sg and op in '+-*':
            ok = {'+': lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                  '-': lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                  '*': lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]()
            ok = z3.simplify(ok)
            if not z3.is_true(ok): self.ob(st, 'no signed overflow in %s' % op, ok, 'safety', node)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op in ('/', '%'):
            self.ob(st, 'divisor is not zero', b != 0, 'safety', node)
            if sg: return a / b if op == '/' else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == '/' else z3.URem(a, b)
        if op in ('<<', '>>'):
            if b.size() != a.size():
                nb = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else None
                rng = z3.simplify(z3.ULT(b, z3.BitVecVal(bits, b.size())))
                if not z3.is_true(rng): self.ob(st, 'shift amount in range', rng, 'safety', node)
                b = nb if nb is not None else z3.Extract(a.size() - 1, 0, b)
            else:
                rng = z3.simplify(z3.ULT(b, z3.BitVecVal(bits, b.size())))
                if not z3.is_true(rng): self.ob(st, 'shift amount in range', rng, 'safety', node)
            if op == '<<': return a << b
            return a >> b if sg else z3.LShR(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        raise Unsupported(op)
    def compare(self, st, op, a, b, t, node):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                r = z3.BoolVal(sameloc(a.loc, b.loc))
            else: r = z3.BoolVal(False)      # address of a live object against null / heap object
            return r if op == '==' else z3.Not(r)
        if t.k == 'bool' and op not in ('==', '!='):
            a, b = self.iconv(st, a, BOOL, I32), self.iconv(st, b, BOOL, I32)
        if op == '==': return a == b
        if op == '!=': return a != b
        if self.ctx.bv and t.k == 'int':
            sg = t.a[1]
            return {'<': lambda: a < b if sg else z3.ULT(a, b), '>': lambda: a > b if sg else z3.UGT(a, b),
                    '<=': lambda: a <= b if sg else z3.ULE(a, b), '>=': lambda: a >= b if sg else z3.UGE(a, b)}[op]()
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
    def toreal_cast(self, st, v, ft):
        if self.ctx.bv:
            v = z3.BV2Int(v, ft.a[1])
        if z3.is_int_value(v): return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    def trunc(self, st, x, tt, node):
        """double -> integer"""
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: v = x.arg(0)
        elif self.quick(st, x >= 0): v = z3.ToInt(x)
        else: v = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        lo, hi = self.irange(tt)
        self.ob(st, 'converted floating value fits', z3.And(v >= lo, v <= hi), 'safety', node)
        if self.ctx.bv: return z3.Int2BV(v, tt.a[0])
        return v
    # ------------------------------------------------------------------ expressions
    def ev(self, st, n):
        """evaluate: location for lvalues, value for prvalues"""
        m = getattr(self, 'x_' + n['kind'], None)
        if m is None: raise Unsupported('expression ' + n['kind'])
        ln = node_line(n)
        if ln: self.line = ln
        return m(st, n)
    def rv(self, st, n): return self.val(st, self.ev(st, n))
    def kids(self, n): return n.get('inner', [])
    def x_ParenExpr(self, st, n): return self.ev(st, n['inner'][0])
    x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_FullExpr = x_ParenExpr
    def x_MaterializeTemporaryExpr(self, st, n):
        v = self.ev(st, n['inner'][0])
        if isinstance(v, Loc): return v
        t = self.prog.type_of(n)
        return self.newcell(st, t, v)
    def x_IntegerLiteral(self, st, n):
        t = self.prog.type_of(n)
        return z3.BitVecVal(int(n['value']), t.a[0]) if self.ctx.bv else z3.IntVal(int(n['value']))
    def x_CharacterLiteral(self, st, n):
        t = self.prog.type_of(n)
        return z3.BitVecVal(n['value'], t.a[0]) if self.ctx.bv else z3.IntVal(n['value'])
    def x_FloatingLiteral(self, st, n):
        if abs(float(n['value']) - 3.141592653589793) < 5e-16: self.trusted.add('the literal 3.14159265358979... (M_PI) stands for pi'); return PI
        return z3.RealVal(str(fractions.Fraction(n['value'])))
    def x_CXXBoolLiteralExpr(self, st, n): return z3.BoolVal(bool(n['value']))
    def x_StringLiteral(self, st, n):
        import json as _j
        try: s = _j.loads(n['value'])
        except Exception: s = n['value'].strip('"')
        return z3.StringVal(s)
    def x_CXXNullPtrLiteralExpr(self, st, n): return z3.IntVal(0)
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr
    def x_ImplicitValueInitExpr(self, st, n): return self.ctx.default(self.prog.type_of(n))
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr
    def x_CXXThisExpr(self, st, n):
        if st.this.root[0] == 'O': return st.this.root[1]
        return Ptr(st.this)
    def x_CXXDefaultArgExpr(self, st, n):
        if n.get('inner'): return self.ev(st, n['inner'][0])
        return Opaque('defaultarg')
    def x_CXXDefaultInitExpr(self, st, n):
        if n.get('inner'): return self.ev(st, n['inner'][0])
        raise Unsupported('default init')
    def x_DeclRefExpr(self, st, n):
        d = n['referencedDecl']; k = d['kind']; did = d['id']
        if k in ('VarDecl', 'ParmVarDecl'):
            root = ('L', did)
            if root in st.cells:
                v = st.cells[root]
                if isinstance(v, Loc): return v
                return Loc(root, (), self.prog.type_of(n))
            # global / static
            nm = d.get('name')
            tu = st.fn.tu if st.fn is not None else None
            qual = None
            for tu in ([st.fn.tu] if st.fn else []) + self.prog.tus:
                if did in tu.vars: qual = tu.vars[did][0]; break
            if qual is None and st.fn is not None:
                # a variable of an unnamed namespace or the global one: found by name in the same translation unit
                for late in (False, True):
                    if late: st.fn.tu.late(nm)
                    q = [v[0] for v in st.fn.tu.vars.values() if v[0].split('::')[-1] == nm and '' in v[0].split('::')]
                    if q: qual = q[0]; break
            return Loc(('G', qual or nm), (), self.prog.type_of(n))
        if k == 'EnumConstantDecl':
            for tu in ([st.fn.tu] if st.fn else []) + self.prog.tus:
                if did in tu.enums: return z3.BitVecVal(tu.enums[did], 32) if self.ctx.bv else z3.IntVal(tu.enums[did])
            raise Unsupported('enum constant ' + str(d.get('name')))
        if k in ('FunctionDecl', 'CXXMethodDecl'): return FnVal(n, d)
        raise Unsupported('decl ref ' + k)
    def fn_of_id(self, st, did):
        for tu in ([st.fn.tu] if st.fn else []) + self.prog.tus:
            if did in tu.fn_by_id: return tu.fn_by_id[did]
        return None
    def fn_by_name(self, st, d, late=False):
        """a function of an unnamed namespace or the global one, found by name and type in the same translation unit"""
        if st.fn is None: return None
        tu = st.fn.tu
        if late: tu.late(d['name'])
        t = d.get('type', {}).get('qualType')
        c = [f for f in tu.fns if f.name == d['name'] and f.type == t and '' in f.qual.split('::') and f.body is not None]
        return c[0] if c else None
    def x_MemberExpr(self, st, n):
        base = n['inner'][0]
        md = n.get('referencedMemberDecl')
        b = self.ev(st, base)
        from .lib import MapEntry
        if isinstance(b, MapEntry): return b.member(self, n['name'])
        if n.get('isArrow'):
            bv = self.val(st, b)
            if isinstance(bv, MapEntry): return bv.member(self, n['name'])
            bt = self.prog.type_of(base)
            obj = self.deref(st, self.val(st, b), bt, n)
        else:
            obj = b if isinstance(b, Loc) else self.newcell(st, self.prog.type_of(base), b)
        # static data member?
        for tu in ([st.fn.tu] if st.fn else []) + self.prog.tus:
            if md in tu.vars: return Loc(('G', tu.vars[md][0]), (), self.prog.type_of(n))
        fn = self.fn_of_id(st, md)
        t = self.prog.raw(n)
        if fn is not None or 'bound member function' in t: return (obj, n)
        # resolve class of the object location
        if isinstance(st.cells.get(obj.root), (It,)): raise Unsupported('member of iterator')
        l = self.field(st, obj, n['name'])
        for h in self.reg.guards.get('field', []): h(self, st, l, n)
        return l
    # casts
    def x_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind'); sub = n['inner'][0]
        if ck == 'FunctionToPointerDecay': return self.ev(st, sub)
        v = self.ev(st, sub)
        return self.cast(st, n, ck, sub, v)
    def x_CStyleCastExpr(self, st, n): return self.x_ImplicitCastExpr(st, n)
    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = x_CStyleCastExpr
    def cast(self, st, n, ck, sub, v):
        P = self.prog
        if ck in ('NoOp', 'ConstructorConversion', 'ArrayToPointerDecay', 'UserDefinedConversion'):
            if ck == 'ArrayToPointerDecay' and isinstance(v, Loc): return self.val(st, v) if P.type_of(sub).k == 'str' else v
            return v
        if ck == 'LValueToRValue': return self.val(st, v)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            if isinstance(v, Loc): return v      # the location keeps its dynamic class
            return v
        if ck in ('NullToPointer', 'NullToMemberPointer'): return z3.IntVal(0)
        if ck == 'BitCast': return self.val(st, v)
        ft, tt = P.type_of(sub), P.type_of(n)
        v = self.val(st, v)
        if ck == 'IntegralCast': return self.iconv(st, v, ft, tt, n)
        if ck == 'IntegralToFloating':
            if ft.k == 'bool': return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return self.toreal_cast(st, v, ft)
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral': return self.trunc(st, v, tt, n)
        if ck == 'IntegralToBoolean': return v != (z3.BitVecVal(0, ft.a[0]) if self.ctx.bv else 0)
        if ck == 'FloatingToBoolean': return v != 0
        if ck == 'PointerToBoolean':
            if isinstance(v, Ptr): return z3.BoolVal(True)
            return v != 0
        if ck == 'ToVoid': return None
        if ck == 'Dynamic': return self.dyncast(st, v, tt)
        raise Unsupported('cast ' + str(ck))
    def x_CXXDynamicCastExpr(self, st, n):
        if n.get('valueCategory') == 'lvalue':
            l = self.ev(st, n['inner'][0])
            if n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'): return l
            tt = self.prog.type_of(n)
            if not isinstance(l, Loc) or l.root[0] != 'O' or l.path or tt.k != 'rec': raise Unsupported('dynamic cast of a reference')
            if self.choose(st, self.isinst(l.root[1], tt.a)): return Loc(l.root, (), tt)
            raise CxxThrow(Exc('bad_cast'))
        v = self.rv(st, n['inner'][0])
        if n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'): return v
        return self.dyncast(st, v, self.prog.type_of(n))
    def dyncast(self, st, v, tt):
        return z3.If(z3.And(v != 0, self.isinst(v, tt.a)), v, z3.IntVal(0))
    def dyntype(self, v): return z3.Function('dyntype', z3.IntSort(), z3.IntSort())(v)
    def isinst(self, v, cls): return z3.Function('isinst_%s' % (cls if isinstance(cls, str) else cls[0]), z3.IntSort(), z3.BoolSort())(v)
    # operators
    def x_UnaryOperator(self, st, n):
        op = n['opcode']; sub = n['inner'][0]; t = self.prog.type_of(n)
        if op == '*':
            p = self.rv(st, sub)
            if isinstance(p, It): return self.it_deref(st, p, n)
            if isinstance(p, FnVal): return p
            return self.deref(st, p, self.prog.type_of(sub), n)
        if op == '&':
            l = self.ev(st, sub)
            if isinstance(l, FnVal): return l
            if isinstance(l, tuple): return l
            if l.root[0] == 'O' and not l.path: return l.root[1]
            if l.root[0] == 'L' and len(l.path) == 1 and l.path[0][0] == 'i' and l.t.k == 'ref' and self.reg.slots:
                # the address of an element of a local vector: elements lie one after another from an unknown address
                base = z3.Int('address_of_elements_%s' % l.root[1]); st.assume(base > 0)
                self.exposed[l.root] = (base, l.path[0][2]); return base + l.path[0][1]
            return Ptr(l)
        if op in ('++', '--'):
            l = self.ev(st, sub)
            v = self.val(st, l)
            if isinstance(v, It): nv = It(v.loc, v.idx + 1 if op == '++' else v.idx - 1, v.kind, v.extra)
            elif t.k == 'real': nv = v + 1 if op == '++' else v - 1
            else: nv = self.arith(st, op[0], v, z3.BitVecVal(1, t.a[0]) if self.ctx.bv else z3.IntVal(1), t, n)
            self.write(st, l, nv)
            return v if n.get('isPostfix') else l
        v = self.rv(st, sub)
        if op == '-':
            if t.k == 'real': return -v
            if z3.is_int_value(v): return z3.IntVal(-v.as_long())
            return self.arith(st, '-', z3.BitVecVal(0, t.a[0]) if self.ctx.bv else z3.IntVal(0), v, t, n)
        if op == '+': return v
        if op == '!': return z3.Not(v)
        if op == '~':
            if self.ctx.bv: return ~v
            return -v - 1 if t.a[1] else (z3.IntVal((1 << t.a[0]) - 1) - v)
        raise Unsupported('unary ' + op)
    def pure_eval(self, st, cond, node):
        """evaluate node as a prvalue under the extra path condition cond; returns value or None if it has effects / forks"""
        s = st.copy(); s.log = None
        s.dec = st.dec; s.dpos = st.dpos; s.ndec = st.ndec
        s.decide(cond)
        sd = s.dec
        cells0, heap0, alloc0 = dict(s.cells), dict(s.heap), s.alloc
        nobs = len(self.obs)
        class Fork(Exception): pass
        old = self.choose; oldn = self.choose_n
        def nofork(x, c):
            c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            raise Fork()
        def noforkn(x, k):
            if k == 1: return 0
            raise Fork()
        self.choose, self.choose_n = nofork, noforkn
        try: v = self.rv(s, node)
        except (Fork, CxxThrow):
            del self.obs[nobs:]; return None
        finally:
            self.choose, self.choose_n = old, oldn
        if not isinstance(v, z3.ExprRef): del self.obs[nobs:]; return None
        for k in set(s.cells) | set(cells0):
            if k[0] == 'T': continue
            if k not in cells0 and k[0] in ('G', 'V'): continue
            if s.cells.get(k) is not cells0.get(k): del self.obs[nobs:]; return None
        for k in set(s.heap) | set(heap0):
            if s.heap.get(k) is not heap0.get(k): del self.obs[nobs:]; return None
        if s.alloc is not alloc0: del self.obs[nobs:]; return None
        for t, f in s.pc[len(st.pc):]:
            if t == 'f': st.assume(z3.Implies(cond, f))
        for k, x in s.cells.items():
            if k not in st.cells and k[0] in ('G', 'V'): st.cells[k] = x
        return v
    def x_BinaryOperator(self, st, n):
        op = n['opcode']; a, b = n['inner'][:2]; P = self.prog
        if op in ('&&', '||'):
            x = self.rv(st, a)
            xs = z3.simplify(x)
            if z3.is_true(xs): return self.rv(st, b) if op == '&&' else xs
            if z3.is_false(xs): return xs if op == '&&' else self.rv(st, b)
            y = self.pure_eval(st, x if op == '&&' else z3.Not(x), b)
            if y is not None: return z3.And(x, y) if op == '&&' else z3.Or(x, y)
            if self.choose(st, x): return self.rv(st, b) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else self.rv(st, b)
        if op == ',':
            self.ev(st, a); return self.ev(st, b)
        if op == '=':
            v = self.rv(st, b); l = self.ev(st, a)
            self.write(st, l, v); return l
        x = self.rv(st, a); y = self.rv(st, b)
        ta = P.type_of(a)
        if op in ('<', '>', '<=', '>=', '==', '!='): return self.compare(st, op, x, y, ta, n)
        t = P.type_of(n)
        if t.k in ('int', 'real'): return self.arith(st, op, x, y, t, n)
        raise Unsupported('binary %s on %r' % (op, t))
    def x_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]; a, b = n['inner']; P = self.prog
        y = self.rv(st, b); l = self.ev(st, a); x = self.val(st, l)
        lt = P.type_of(a)
        ct = n.get('computeResultType', n['type']); ct = P.ptype(ct.get('desugaredQualType', ct['qualType']))
        clt = n.get('computeLHSType', n['type']); clt = P.ptype(clt.get('desugaredQualType', clt['qualType']))
        x2 = self.conv(st, x, lt, clt, n)
        r = self.arith(st, op, x2, y, ct, n)
        self.write(st, l, self.conv(st, r, ct, lt, n))
        return l
    def conv(self, st, v, ft, tt, node=None):
        if ft == tt: return v
        if ft.k in ('int', 'bool') and tt.k == 'int': return self.iconv(st, v, ft, tt, node)
        if ft.k == 'int' and tt.k == 'real': return self.toreal_cast(st, v, ft)
        if ft.k == 'real' and tt.k == 'int': return self.trunc(st, v, tt, node)
        if ft.k == 'int' and tt.k == 'bool': return v != 0
        if ft.k == 'real' and tt.k == 'cx': return cx(v, z3.RealVal(0))
        if ft.k == 'bool' and tt.k == 'real': return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return v
    def x_ConditionalOperator(self, st, n):
        c, a, b = n['inner']
        cv = self.rv(st, c)
        cs = z3.simplify(cv)
        if z3.is_true(cs): return self.ev(st, a)
        if z3.is_false(cs): return self.ev(st, b)
        lval = n.get('valueCategory') == 'lvalue'
        va = self.pure_eval(st, cv, a)
        if va is not None:
            vb = self.pure_eval(st, z3.Not(cv), b)
            if vb is not None and va.sort() == vb.sort():
                r = self.ite(cv, va, vb)
                return self.newcell(st, self.prog.type_of(n), r) if lval else r
        return self.ev(st, a) if self.choose(st, cv) else self.ev(st, b)
    def x_ArraySubscriptExpr(self, st, n):
        a = self.ev(st, n['inner'][0]); i = self.rv(st, n['inner'][1])
        from . import lib
        return lib.subscript(self, st, a, i, n)
    def x_UnaryExprOrTypeTraitExpr(self, st, n):
        t = self.prog.type_of(n)
        a = n.get('argType', {})
        return self.sizeof(st, a.get('desugaredQualType', a.get('qualType')), t)
    def sizeof(self, st, at, t=None):
        sizes = {'int': 4, 'unsigned int': 4, 'double': 8, 'fftw_complex': 16, 'double[2]': 16, 'bool': 1, 'char': 1, 'long': 8, 'long long': 8, 'float': 4, 'short': 2, 'unsigned long': 8, 'unsigned long long': 8, 'std::complex<double>': 16}
        if at in sizes: return z3.BitVecVal(sizes[at], t.a[0]) if self.ctx.bv else z3.IntVal(sizes[at])
        v = z3.Int('sizeof(%s)' % (at or 'expr'))
        st.assume(v >= 1, v <= 1 << 20)
        self.trusted.add('sizeof of class types is some constant between 1 and 2^20')
        return v
    def x_CXXThrowExpr(self, st, n):
        if not n.get('inner'): raise CxxThrow(Exc('rethrow'))
        t = self.prog.type_of(n['inner'][0])
        raise CxxThrow(Exc(t.a if t.k == 'exc' else 'string' if t.k == 'str' else 'other'))
    def x_CXXNewExpr(self, st, n):
        P = self.prog
        t = P.type_of(n)          # pointer type
        ce = [c for c in n.get('inner', []) if c['kind'] in ('CXXConstructExpr', 'ImplicitValueInitExpr')]
        from . import lib
        return lib.new_object(self, st, t, ce[0] if ce else None, n)
    def alloc_obj(self, st, cls):
        r = fresh('new_%s' % (cls if isinstance(cls, str) else cls[0]), z3.IntSort())
        st.assume(r == st.alloc + 1)
        st.alloc = r
        st.assume(r > 0)
        ck = cls
        for c in self.prog.cls:
            if isinstance(c, str) and not self.prog.is_sub(ck, c): st_assume_not = True
        if isinstance(cls, str) and cls in self.prog.cls:
            for c in self.supers(cls): st.assume(self.isinst(r, c))
        return r
    def supers(self, cls):
        out = [cls]
        for b in self.prog.bases(cls): out += [x for x in self.supers(b) if x not in out]
        return [x for x in out if isinstance(x, str)]
    def x_CXXDeleteExpr(self, st, n):
        p = self.rv(st, n['inner'][0])
        from . import lib
        return lib.delete_object(self, st, p, self.prog.type_of(n['inner'][0]), n)
    # ------------------------------------------------------------------ calls
    def x_CXXConstructExpr(self, st, n):
        from . import lib
        return lib.construct(self, st, n)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def x_InitListExpr(self, st, n):
        t = self.prog.type_of(n)
        if t.k in ('int', 'real', 'bool', 'ref') and n.get('inner'): return self.rv(st, n['inner'][0])
        if not n.get('inner'): return self.ctx.default(t)
        raise Unsupported('init list')
    def x_CXXMemberCallExpr(self, st, n):
        callee = n['inner'][0]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'): callee = callee['inner'][0]
        if callee['kind'] != 'MemberExpr':
            if callee['kind'] == 'BinaryOperator': raise Unsupported('pointer to member call')
            raise Unsupported('member call through ' + callee['kind'])
        fn = self.fn_of_id(st, callee.get('referencedMemberDecl'))
        args = n['inner'][1:]
        base = callee['inner'][0]
        if fn is None:
            from . import lib
            return lib.member_call(self, st, n, callee, base, args)
        # receiver
        b = self.ev(st, base)
        if callee.get('isArrow'): obj = self.deref(st, self.val(st, b), self.prog.type_of(base), n, 'receiver of %s is not null' % fn.name)
        else: obj = b if isinstance(b, Loc) else self.newcell(st, self.prog.type_of(base), b)
        # explicit qualification disables dynamic dispatch
        return self.call(st, fn, obj, args, n, virtual=fn.virtual)
    def x_CallExpr(self, st, n):
        callee = self.ev(st, n['inner'][0]); args = n['inner'][1:]
        from . import lib
        if isinstance(callee, Loc): callee = self.val(st, callee)
        if isinstance(callee, FnVal):
            fn = self.fn_of_id(st, callee.decl['id'])
            if fn is None: fn = self.fn_by_name(st, callee.decl)
            if fn is not None: return self.call(st, fn, None, args, n)
            return lib.call(self, st, n, callee.decl, args)
        return lib.call_value(self, st, n, callee, args)
    def x_CXXOperatorCallExpr(self, st, n):
        from . import lib
        callee = self.ev(st, n['inner'][0]); args = n['inner'][1:]
        fn = self.fn_of_id(st, callee.decl['id']) if isinstance(callee, FnVal) else None
        if fn is not None:
            if fn.kind == 'CXXMethodDecl' and not fn.static:
                obj = self.ev(st, args[0])
                if not isinstance(obj, Loc): obj = self.newcell(st, self.prog.type_of(args[0]), obj)
                if fn.name == 'operator=' and fn.body is None and self.prog.body_of(fn) is None:
                    v = self.rv(st, args[1]); self.write(st, obj, v); return obj
                return self.call(st, fn, obj, args[1:], n, virtual=fn.virtual)
            return self.call(st, fn, None, args, n)
        return lib.operator(self, st, n, callee.decl if isinstance(callee, FnVal) else None, args)
    def eval_args(self, st, fn, args):
        out = []
        for i, a in enumerate(args):
            pt = fn.params[i]['type']['qualType'] if i < len(fn.params) else ''
            pd = fn.params[i]['type'].get('desugaredQualType', pt) if i < len(fn.params) else ''
            v = self.ev(st, a)
            if pt.rstrip().endswith('&') or pd.rstrip().endswith('&'):
                if not isinstance(v, Loc):
                    v = self.newcell(st, self.prog.type_of(fn.params[i]), v)
            else:
                v = self.val(st, v)
            out.append(v)
        return out
    def call(self, st, fn, obj, argnodes, n, virtual=False, args=None):
        if args is None: args = self.eval_args(st, fn, argnodes)
        con = self.reg.lookup(self, fn, obj)
        if con is not None:
            self.used_contracts.add(con.name)
            return self.apply_contract(st, con, fn, obj, args, n)
        body = self.prog.body_of(fn)
        if virtual and obj is not None and not self.reg.exact_dispatch(self, fn, obj):
            tgt = self.reg.devirtualise(self, fn, obj)
            if tgt is None: raise Unsupported('virtual call without contract: ' + fn.qual)
            body = tgt
        if body is None:
            if fn.implicit: return self.implicit_fn(st, fn, obj, args)
            raise Unsupported('call of %s: no contract and no body' % fn.qual)
        return self.inline(st, body, obj, args, n)
    def implicit_fn(self, st, fn, obj, args):
        if fn.name == 'operator=':
            self.write(st, obj, self.val(st, args[0])); return obj
        raise Unsupported('implicit ' + fn.qual)
    def bind(self, st, fn, args):
        for p, v in zip(fn.params, args): st.cells[('L', p['id'])] = v
    def inline(self, st, fn, obj, args, n):
        if self.depth > self.MAXINLINE or fn.qual in self.call_stack: raise Unsupported('recursive inlining of ' + fn.qual)
        self.inlined.add(fn.qual)
        replay = st.dpos < st.ndec
        s = st.copy(); s.this = obj; s.fn = fn
        self.bind(s, fn, args)
        self.depth += 1; self.call_stack.append(fn.qual)
        if replay: self.dry += 1
        saved_line = self.line
        try: outs = self.run_body(s, fn)
        finally:
            self.depth -= 1; self.call_stack.pop()
            if replay: self.dry -= 1
        self.line = saved_line
        rets = [(s2, v) for s2, k, v in outs if k in ('ret', 'next')]
        thr = [(s2, 'throw', v) for s2, k, v in outs if k == 'throw']
        ptype = fn.type.split('(')[0].strip()
        isref = ptype.endswith('&')
        if not isref:
            rets = [(s2, self.val(s2, v) if isinstance(v, Loc) else v) for s2, v in rets]
        groups = []
        if rets:
            base = st.copy()
            m = self.merge(base, [s2 for s2, _ in rets], [v for _, v in rets])
            groups = [(m[0], 'ret', m[1])] if m is not None else [(s2, 'ret', v) for s2, v in rets]
        allouts = groups + thr
        if not allouts: raise Infeasible()
        i = self.choose_n(st, len(allouts))
        s2, k, v = allouts[i]
        keep = (st.this, st.fn, st.dec, st.dpos, st.ndec, st.alts)
        st.become(s2)
        st.this, st.fn, st.dec, st.dpos, st.ndec, st.alts = keep
        if k == 'throw': raise CxxThrow(v)
        return v
    # ------------------------------------------------------------------ bodies
    def run_body(self, st, fn):
        """execute a function body (with constructor initialisers) from a prepared state"""
        if fn.kind == 'CXXConstructorDecl':
            from . import lib
            outs = self.explore(st, lambda s: lib.ctor_inits(self, s, fn))
            res = []
            for s, k, v in outs:
                if k != 'next': res.append((s, k, v)); continue
                res += self.stmt(s, fn.body) if fn.body is not None else [(s, 'next', None)]
            return res
        return self.stmt(st, fn.body)
    def stmt(self, st, n):
        if n is None or not n.get('kind'): return [(st, 'next', None)]
        k = n['kind']
        ln = node_line(n)
        if ln: self.line = ln
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(st, n)
        return self.explore(st, lambda s: (self.ev(s, n), None)[1])
    def seq(self, st, stmts):
        """execute statements in sequence with merging of fall-through states"""
        done = []; cur = [st]
        for x in stmts:
            nxt = []
            for s in cur:
                for o in self.stmt(s, x):
                    (nxt if o[1] == 'next' else done).append(o)
            if len(nxt) > 1:
                # merge states per common ancestor
                m = self.try_merge(cur, nxt)
                nxt = m
            cur = [o[0] if isinstance(o, tuple) else o for o in nxt]
            if not cur: break
        return done + [(s, 'next', None) for s in cur]
    def try_merge(self, bases, outs):
        sts = [o[0] for o in outs]
        if len(bases) == 1:
            m = self.merge(bases[0], sts)
            if m is not None: return [m[0]]
        return sts
    def s_CompoundStmt(self, st, n):
        lk = st.locks
        outs = self.seq(st, n.get('inner', []))
        res = []
        for s, k, v in outs:
            if len(s.locks) > len(lk):
                from . import lib
                for l in s.locks[len(lk):][::-1]: lib.unlock(self, s, l)
                s.locks = lk
            res.append((s, k, v))
        return res
    def s_NullStmt(self, st, n): return [(st, 'next', None)]
    def s_DeclStmt(self, st, n):
        def go(s):
            for d in n.get('inner', []):
                if d['kind'] == 'VarDecl': self.vardecl(s, d)
        return self.explore(st, go)
    def vardecl(self, st, d):
        from . import lib
        root = ('L', d['id'])
        qt = d['type']['qualType']; t = self.prog.type_of(d)
        init = [c for c in d.get('inner', []) if c and c.get('kind')]
        if d.get('storageClass') == 'static':
            self.reg.static_local(self, st, d, init); return
        if not init:
            st.cells[root] = self.ctx.fresh(d['name'] + '_uninit', t) if t.k in ('int', 'real', 'bool', 'ref') else self.ctx.default(t) if t.k not in ('opq', 'exc', 'iter') else Opaque(t.a)
            return
        v = self.ev(st, init[0])
        if qt.rstrip().endswith('&') or d['type'].get('desugaredQualType', '').rstrip().endswith('&'):
            if not isinstance(v, Loc): v = self.newcell(st, t, v)
            st.cells[root] = v; return
        v = self.val(st, v)
        if isinstance(v, Opaque) and v.what == 'lock': st.locks = st.locks + (v.data,)
        st.cells[root] = v
        if st.log is not None: st.log.append((root, ()))
    def s_ReturnStmt(self, st, n):
        if not n.get('inner'): return [(st, 'ret', None)]
        ptype = st.fn.type.split('(')[0].strip() if st.fn else ''
        def go(s):
            v = self.ev(s, n['inner'][0])
            if not ptype.endswith('&'): v = self.val(s, v)
            return v
        return [(s, 'ret' if k == 'next' else k, v) for s, k, v in self.explore(st, go)]
    def s_BreakStmt(self, st, n): return [(st, 'brk', None)]
    def s_ContinueStmt(self, st, n): return [(st, 'cnt', None)]
    def s_IfStmt(self, st, n):
        inner = [c for c in n['inner']]
        if n.get('hasVar') or n.get('hasInit'):
            pre = inner[:-(3 if n.get('hasElse') else 2)]
            outs = self.seq(st, pre)
            res = []
            for s, k, v in outs:
                if k != 'next': res.append((s, k, v)); continue
                m = dict(n); m['inner'] = inner[len(pre):]; m['hasVar'] = m['hasInit'] = False
                res += self.s_IfStmt(s, m)
            return res
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        res = []; nxt = []
        for s, k, v in self.explore(st, lambda s: self.rv(s, cond)):
            if k != 'next': res.append((s, k, v)); continue
            vs = z3.simplify(v)
            for truth, branch in ((True, then), (False, els)):
                if z3.is_true(vs) and not truth or z3.is_false(vs) and truth: continue
                c = v if truth else z3.Not(v)
                if not (z3.is_true(vs) or z3.is_false(vs)) and not self.feasible(s, c): continue
                b = s.copy(); 
                if not (z3.is_true(vs) or z3.is_false(vs)): b.decide(c)
                for o in (self.stmt(b, branch) if branch is not None else [(b, 'next', None)]):
                    (nxt if o[1] == 'next' else res).append(o)
        if len(nxt) > 1:
            m = self.merge(st, [o[0] for o in nxt])
            if m is not None: nxt = [(m[0], 'next', None)]
        return res + nxt
    def s_ForStmt(self, st, n):
        inner = n['inner']
        init, condvar, cond, inc, body = (inner + [None] * 5)[:5]
        outs = self.stmt(st, init) if init and init.get('kind') else [(st, 'next', None)]
        res = []
        for s, k, v in outs:
            if k != 'next': res.append((s, k, v)); continue
            res += self.loop(s, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body, n)
        return res
    def s_CXXForRangeStmt(self, st, n):
        inner = n['inner']
        parts = [x for x in inner if x and x.get('kind')]
        # range decl, begin decl, end decl, condition, increment, loop variable, body
        decls = parts[:-4]; cond, inc, var, body = parts[-4:]
        outs = self.seq(st, decls)
        res = []
        for s, k, v in outs:
            if k != 'next': res.append((s, k, v)); continue
            res += self.loop(s, cond, inc, {'kind': 'CompoundStmt', 'inner': [var, body], 'id': n['id'] + 'b'}, n)
        return res
    def s_WhileStmt(self, st, n):
        inner = n['inner']
        return self.loop(st, inner[-2], None, inner[-1], n)
    def s_DoStmt(self, st, n):
        body, cond = n['inner'][0], n['inner'][1]
        res = []
        for s, k, v in self.stmt(st, body):
            if k in ('next', 'cnt'): res += self.loop(s, cond, None, body, n)
            elif k == 'brk': res.append((s, 'next', None))
            else: res.append((s, k, v))
        return res
    def s_SwitchStmt(self, st, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        flat = []
        def flatten(x):
            if x['kind'] == 'CaseStmt':
                flat.append(('case', x['inner'][0])); flatten(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt': flat.append(('default', None)); flatten(x['inner'][-1])
            else: flat.append(('s', x))
        for c in body.get('inner', []): flatten(c)
        res = []
        for s, k, v in self.explore(st, lambda s: self.rv(s, cond)):
            if k != 'next': res.append((s, k, v)); continue
            conds = []
            for i, (tag, x) in enumerate(flat):
                if tag == 'case':
                    cv = self.rv(s, x); 
                    if cv.sort() != v.sort(): cv = z3.IntVal(cv.as_long()) if not self.ctx.bv else z3.BitVecVal(cv.as_long(), v.size())
                    conds.append((i, v == cv))
            dflt = [i for i, (tag, _) in enumerate(flat) if tag == 'default']
            starts = conds + [(dflt[0] if dflt else len(flat), z3.And(*[z3.Not(c) for _, c in conds]) if conds else z3.BoolVal(True))]
            for i, c in starts:
                if not self.feasible(s, c): continue
                b = s.copy(); b.decide(c)
                for o in self.seq(b, [x for tag, x in flat[i:] if tag == 's']):
                    res.append((o[0], 'next', None) if o[1] == 'brk' else o)
        nxt = [o for o in res if o[1] == 'next']
        if len(nxt) > 1:
            m = self.merge(st, [o[0] for o in nxt])
            if m is not None: return [o for o in res if o[1] != 'next'] + [(m[0], 'next', None)]
        return res
    def s_CXXTryStmt(self, st, n):
        body, handlers = n['inner'][0], n['inner'][1:]
        res = []
        for s, k, v in self.stmt(st, body):
            if k != 'throw': res.append((s, k, v)); continue
            caught = False
            for h in handlers:
                decl = h['inner'][0] if h['inner'] and h['inner'][0] and h['inner'][0].get('kind') == 'VarDecl' else None
                hb = h['inner'][-1]
                ht = self.prog.type_of(decl) if decl else None
                if ht is None or (ht.k == 'exc' and exc_is(v.t, ht.a)) or (v.t == 'string' and ht.k == 'str') or (ht.k == 'opq' and v.t == ht.a):
                    caught = True
                    if decl is not None: s.cells[('L', decl['id'])] = Opaque('exc')
                    for o in self.stmt(s, hb):
                        if o[1] == 'throw' and o[2].t == 'rethrow': res.append((o[0], 'throw', v))
                        else: res.append(o)
                    break
            if not caught: res.append((s, k, v))
        nxt = [o for o in res if o[1] == 'next']
        if len(nxt) > 1:
            m = self.merge(st, [o[0] for o in nxt])
            if m is not None: return [o for o in res if o[1] != 'next'] + [(m[0], 'next', None)]
        return res
    def loop(self, st, cond, inc, body, n):
        from . import loops
        return loops.exec_loop(self, st, cond, inc, body, n)
    # ------------------------------------------------------------------ iterators
    def it_deref(self, st, it, node):
        c = self.ctx
        if it.kind == 'vec':
            v = self.read(st, it.loc); t = it.loc.t
            n = c.vlen(t, v)
            ok = z3.And(0 <= it.idx, it.idx < n) if not c.bv else z3.ULT(it.idx, n)
            if not z3.is_true(z3.simplify(ok)): self.ob(st, 'iterator can be dereferenced', ok, 'safety', node)
            return it.loc.sub(('i', it.idx, t), t.args[0])
        from . import lib
        return lib.it_deref_other(self, st, it, node)
    # ------------------------------------------------------------------ contracts
    def apply_contract(self, st, con, fn, obj, args, n):
        from . import contracts
        return contracts.apply(self, st, con, fn, obj, args, n)

_hq = {}
def has_quant(f):
    i = f.get_id()
    if i not in _hq or not _hq[i][1].eq(f):
        r = False
        for x in subterms(f):
            if z3.is_quantifier(x): r = True; break
        _hq[i] = (r, f)
    return _hq[i][0]

_consts = {}
def consts_of(f):
    i = f.get_id()
    if i not in _consts or not _consts[i][1].eq(f):
        _consts[i] = (frozenset(x.get_id() for x in subterms(f) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED), f)
    return _consts[i][0]
def relevant(fs, goal):
    """facts connected to the goal through shared constants"""
    want = set(consts_of(goal)); rest = [(f, consts_of(f)) for f in fs]; out = []
    changed = True
    while changed:
        changed = False; r2 = []
        for f, cs in rest:
            if not cs or cs & want:
                out.append(f); want |= cs; changed = True
            else: r2.append((f, cs))
        rest = r2
    return out

def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, It) and isinstance(b, It): return sameloc(a.loc, b.loc) and a.kind == b.kind and a.idx.eq(b.idx) and (a.extra is b.extra)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return sameloc(a.loc, b.loc)
    if isinstance(a, Loc) and isinstance(b, Loc): return sameloc(a, b)
    return False
def samestep(x, y):
    if x[0] != y[0]: return False
    if isinstance(x[1], z3.ExprRef) and isinstance(y[1], z3.ExprRef): return x[1].eq(y[1])
    return x[1] == y[1]
def sameloc(a, b):
    if a.root[0] == 'O' and b.root[0] == 'O': return a.root[1].eq(b.root[1]) and len(a.path) == len(b.path)
    return a.root == b.root and len(a.path) == len(b.path) and all(samestep(x, y) for x, y in zip(a.path, b.path))

def rdiv(a, b):
    """real division; x/1, 0/x kept simple; otherwise a * inv(b)"""
    return a / b

def mdom(c, t, v): return v.arg(0) if v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else c.map(t)[2](v)
def mval(c, t, v): return v.arg(1) if v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else c.map(t)[3](v)
def msize(c, t, v): return v.arg(2) if v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else c.map(t)[4](v)
