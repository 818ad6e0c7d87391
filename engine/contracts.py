"""Function contracts: declaration, verification of a function against its contract, use of a contract at a call."""
import z3, time
from .terms import *
from .exec import *
from . import solve as SV
from . import loops
from .cxx import ExtractError

class Contract:
    """requires / ensures: functions of a CCtx returning [(name, formula)];  throws: [(exception type, cond(c))] - the function throws that
    exception exactly when cond holds in the pre-state (conditions are tried in order);  modifies(c): list of locations / ('H', cls, field) /
    ('H', cls, field, ref) / ('V', ghost) that may change;  returns(c): the result as a term"""
    def __init__(self, qual, sig=None, nparams=None, requires=None, ensures=None, throws=(), may_throw=(), modifies=None, returns=None,
                 loops=(), pairs=(), allocates=False, assumed=False, name=None, setup=None, iters=None, on_throw='nothing', inline=False, note=None,
                 timeout=10000, lemmas=None, arg_cls=None, props=None, this_cls=None, exact_this=False, bv=False, unroll=0, fresh_result=False, opaque_calls=(), known=None, const=None, throw_ensures=None, internal=False, where=None, sets=None, cases=None, setup_case=None, cover=None, chain=False, name_arrays=False, cand_time=None, derived=None, slots=False):
        self.derived, self.slots = derived, slots
        self.chain = chain   # later postconditions are proved with the earlier ones at hand
        self.throw_ensures = throw_ensures; self.internal = internal; self.where = where; self.cases = cases; self.setup_case, self.cover = setup_case, cover; self.sets = sets or (lambda c: {})
        self.qual, self.sig, self.nparams = qual, sig, nparams
        self.requires = requires or (lambda c: []); self.ensures = ensures or (lambda c: [])
        self.throws = list(throws); self.may_throw = list(may_throw)
        self.modifies = modifies or (lambda c: []); self.returns = returns
        self.loops = list(loops); self.pairs = pairs; self.allocates = allocates
        self.assumed = assumed; self.name = name or qual.replace('k52::', '') + (sig or '')
        self.setup = setup; self.iters = iters or {}; self.on_throw = on_throw; self.note = note
        self.name_arrays = name_arrays; self.cand_time = cand_time; self.timeout = timeout; self.lemmas = lemmas; self.arg_cls = arg_cls or {}
        self.this_cls = this_cls; self.exact_this = exact_this; self.const = const
        self.bv = bv; self.unroll = unroll; self.fresh_result = fresh_result
    def matches(self, fn):
        if fn.qual != self.qual: return False
        if self.sig is not None and self.sig not in fn.type: return False
        if self.nparams is not None and len(fn.params) != self.nparams: return False
        return True

class CCtx:
    """what a contract clause sees: arguments, receiver, result, and memory before and after"""
    def __init__(self, X, pre, post, fn, obj, args, result=None):
        self.X, self.pre, self.post, self.fn, self.obj, self.args, self.result = X, pre, post, fn, obj, args, result
        self.ctx = X.ctx
    # arguments
    def _i(self, i):
        if isinstance(i, int): return i
        for j, p in enumerate(self.fn.params):
            if p.get('name') == i: return j
        raise KeyError(i)
    def arg(self, i): return self.args[self._i(i)]
    def t(self, i): return self.X.prog.type_of(self.fn.params[self._i(i)])
    def _rd(self, st, v):
        if isinstance(v, Ptr): v = v.loc
        if isinstance(v, Loc):
            r = st.cells.get(v.root) if v.root[0] not in ('H', 'O') and not v.path else None
            if isinstance(r, (It, Ptr, Opaque)): return r
            return self.X.read(st, v)
        return v
    def a(self, i): return self._rd(self.pre, self.arg(i))
    def a_(self, i): return self._rd(self.post, self.arg(i))
    def ref(self, i):
        """reference value of an object argument"""
        v = self.arg(i)
        if isinstance(v, Loc):
            if v.root[0] == 'O' and not v.path: return v.root[1]
            return self.X.read(self.pre, v)
        return v
    @property
    def this(self): return self.obj.root[1]
    def f(self, name): return self.X.read(self.pre, self.X.field(self.pre, self.obj, name))
    def f_(self, name): return self.X.read(self.post, self.X.field(self.post, self.obj, name))
    def floc(self, name, obj=None): return self.X.field(self.pre, obj or self.obj, name)
    def ft(self, name): return self.X.field(self.pre, self.obj, name).t
    def objloc(self, ref, cls): return Loc(('O', ref), (), T('rec', cls))
    def of(self, ref, cls, name): return self.X.read(self.pre, self.X.field(self.pre, self.objloc(ref, cls), name))
    def of_(self, ref, cls, name): return self.X.read(self.post, self.X.field(self.post, self.objloc(ref, cls), name))
    def H(self, cls, name):
        k = (cls, name); return self.pre.heap[k] if k in self.pre.heap else self.X.heap0(k)
    def H_(self, cls, name):
        k = (cls, name); return self.post.heap[k] if k in self.post.heap else self.X.heap0(k)
    def g(self, name): return self.X.read(self.pre, Loc(('V', name), (), self.X.ghost_t[name]))
    def g_(self, name): return self.X.read(self.post, Loc(('V', name), (), self.X.ghost_t[name]))
    def glob(self, qual, t): return self.X.read(self.pre, Loc(('G', qual), (), t))
    def glob_(self, qual, t): return self.X.read(self.post, Loc(('G', qual), (), t))
    # vectors
    def len(self, v, t=VEC(REAL)): return self.ctx.vlen(t, v)
    def at(self, v, i, t=VEC(REAL)): return self.ctx.vget(t, v, i)
    def arr(self, v, t=VEC(REAL)): return self.ctx.varr(t, v)
    def eq(self, t, a, b): return self.ctx.eq(t, a, b)
    def valid(self, ref): return z3.And(ref > 0, ref <= self.pre.alloc)

def is_ref_param(p):
    q = p['type']['qualType'].rstrip(); d = p['type'].get('desugaredQualType', q).rstrip()
    return q.endswith('&') or d.endswith('&')
def is_const_ref(p):
    q = p['type']['qualType']
    return q.strip().startswith('const ') or p['type'].get('desugaredQualType', q).strip().startswith('const ')

def initial(X, con, fn):
    """symbolic pre-state of a function"""
    st = State(); P = X.prog
    st.alloc = fresh('alloc0', z3.IntSort()); st.assume(st.alloc >= 0); a0 = st.alloc
    obj = None
    if fn.kind in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and not fn.static:
        cls = con.this_cls or fn.cls.key
        r = fresh('this', z3.IntSort())
        if fn.kind == 'CXXConstructorDecl':
            st.assume(r == st.alloc + 1); st.alloc = r; st.assume(r > 0)
        else: st.assume(r > 0, r <= st.alloc)
        obj = Loc(('O', r), (), T('rec', cls))
        if isinstance(cls, str):
            for c in X.supers(cls): st.assume(X.isinst(r, c))
    st.this = obj; st.fn = fn
    for g in X.ghost_t: st.cells[('V', g)] = X.reg.initial_global(X, ('V', g))
    args = []
    made = {}
    for i, p in enumerate(fn.params):
        t = P.type_of(p); nm = p.get('name') or 'arg%d' % i
        if t.k == 'iter':
            tgt = con.iters.get(nm)
            if tgt is None: raise Unsupported('iterator parameter %s needs a container in the contract' % nm)
            cname, ct = tgt
            if cname not in made:
                v = X.ctx.fresh(cname, ct)
                root = ('A', cname); st.cells[root] = v; X.rtypes[root] = ct
                for f in X.ctx.wf(ct, v, a0): st.assume(f)
                made[cname] = Loc(root, (), ct)
            idx = fresh(nm, X.ctx.isort()); loc = made[cname]
            ln = X.ctx.vlen(ct, st.cells[loc.root])
            st.assume(z3.And(0 <= idx, idx <= ln) if not X.ctx.bv else z3.ULE(idx, ln))
            it = It(loc, idx)
            if is_ref_param(p):
                root = ('A', nm); st.cells[root] = it; args.append(Loc(root, (), T('iter')))
            else: args.append(it)
            continue
        if t.k == 'ptr':
            ct = t.args[0]
            v = X.ctx.fresh(nm, ct)
            for f in X.ctx.wf(ct, v, a0): st.assume(f)
            root = ('A', nm); st.cells[root] = v; X.rtypes[root] = ct
            X.trusted.add('pointers to containers passed as parameters are not null and do not alias')
            args.append(Ptr(Loc(root, (), ct))); continue
        if t.k == 'rec' and t.extra is None and is_ref_param(p):
            r = fresh(nm, z3.IntSort()); st.assume(r > 0, r <= a0)
            if isinstance(t.a, str):
                for c in X.supers(t.a): st.assume(X.isinst(r, c))
            args.append(Loc(('O', r), (), t)); continue
        if t.k == 'opq' or t.k == 'exc':
            root = ('A', nm); st.cells[root] = Opaque(t.a); args.append(Loc(root, (), t) if is_ref_param(p) else Opaque(t.a)); continue
        if t.k in ('fn', 'void'): raise Unsupported('parameter of type %r' % (t,))
        v = X.ctx.fresh(nm, t)
        for f in X.ctx.wf(t, v, a0): st.assume(f)
        if t.k == 'ref' and isinstance(t.a, str) and t.a in P.cls:
            for c in X.supers(t.a): st.assume(z3.Implies(v != 0, X.isinst(v, c)))
        if is_ref_param(p):
            root = ('A', nm); st.cells[root] = v; X.rtypes[root] = t
            args.append(Loc(root, (), t))
            if not is_const_ref(p): X.trusted.add('reference parameters to containers and scalars do not alias')
        else: args.append(v)
    # parameters passed by value live in their own cells
    for p, v in zip(fn.params, args): st.cells[('L', p['id'])] = v
    return st, obj, args

def loc_key(X, l):
    return l

def changed_keys(pre, post, X):
    ks = [k for k in post.heap if k not in pre.heap or not post.heap[k].eq(pre.heap[k])]
    cs = [k for k in post.cells if k[0] in ('A', 'V', 'G') and not same(post.cells[k], pre.cells.get(k))]
    return ks, cs

def frame_obligations(X, st, c, con, mods, what):
    """everything not listed in modifies keeps its value (objects allocated by the call excepted)"""
    hk, cs = changed_keys(c.pre, st, X)
    wholeH = set(); partH = {}; okc = set(); okpaths = []
    for m in mods:
        if isinstance(m, tuple) and m[0] == 'H':
            if len(m) == 3: wholeH.add((m[1], m[2]))
            else: partH.setdefault((m[1], m[2]), []).append(m[3])
        elif isinstance(m, tuple) and m[0] == 'V': okc.add(('V', m[1]))
        elif isinstance(m, tuple) and m[0] == 'G': okc.add(('G', m[1]))
        elif isinstance(m, Ptr): okc.add(m.loc.root)
        elif isinstance(m, Loc):
            if m.root[0] == 'H': partH.setdefault(m.root[1], []).append(m.path[0][1])
            elif m.root[0] == 'O':
                for o, n, _ in X.prog.all_fields(m.t.a): partH.setdefault((o, n), []).append(m.root[1])
            else: okc.add(m.root)
        elif isinstance(m, It): okc.add(m.loc.root)
    for k in hk:
        if k in wholeH: continue
        old = c.pre.heap[k] if k in c.pre.heap else X.heap0(k)
        new = st.heap[k]
        r = fresh('obj', z3.IntSort())
        conds = [r >= 1, r <= c.pre.alloc]
        if k[0] in X.reg.embedded:
            # members of older objects (of members of older objects)
            own = z3.Function('owner_of_member', z3.IntSort(), z3.IntSort()); a0 = c.pre.alloc
            isnew = (lambda x: z3.Or(x > a0, x == c.this)) if c.ctor else (lambda x: x > a0)
            conds = [r != 0, z3.Not(isnew(r)), z3.Implies(r < 0, z3.And(z3.Not(isnew(own(r))), z3.Implies(own(r) < 0, z3.Not(isnew(own(own(r)))))))]
        conds += [r != x for x in partH.get(k, [])]
        ft = X.field_type(k)
        if c.ctor: conds.append(r != c.this)
        X.ob(st.copy(), 'frame%s: %s::%s of other objects unchanged' % (what, k[0] if isinstance(k[0], str) else k[0][0], k[1]),
             z3.ForAll([r], z3.Implies(z3.And(*conds), X.ctx.eq(ft, sel(new, r), sel(old, r)))), 'frame')
    for k in cs:
        if k in okc: continue
        if k not in c.pre.cells:
            if k[0] == 'G' or k[0] == 'V':
                old = X.reg.initial_global(X, k)
                if old is None: continue
                if isinstance(old, z3.ExprRef) and old.eq(st.cells[k]): continue
                X.ob(st.copy(), 'frame%s: %s unchanged' % (what, k[1]), st.cells[k] == old, 'frame')
            continue
        a, b = st.cells[k], c.pre.cells[k]
        if isinstance(a, It): X.ob(st.copy(), 'frame%s: iterator argument %s unchanged' % (what, k[1]), a.idx == b.idx, 'frame'); continue
        t = X.rtypes.get(k)
        if t is None and k[0] == 'V': t = X.ghost_t[k[1]]
        X.ob(st.copy(), 'frame%s: %s unchanged' % (what, k[1]), X.ctx.eq(t, a, b) if t is not None else a == b, 'frame')

def verify(X, con, fn):
    """generate all obligations of fn against con (recorded in X.obs)"""
    if con.cases is None: return verify_case(X, con, fn, None)
    # the function is executed once for every case; the cases are shown to cover the precondition
    for case in con.cases: verify_case(X, con, fn, case)
    st, obj, args = initial(X, con, fn); c = CCtx(X, st, st, fn, obj, args)
    for n, f in con.requires(c): st.assume(f)
    X.ob(st, 'the cases are all there are', z3.Or(*[con.cover(c, case) for case in con.cases]), 'cases')

def verify_case(X, con, fn, case):
    X.cur = con.name
    X.name_arrays = con.name_arrays; X.cand_time = con.cand_time; X.loop_specs = con.loops
    st, obj, args = initial(X, con, fn)
    X.reg.verifying.append(con)
    try:
        pre = st.copy(); pre.cells = dict(st.cells); pre.heap = dict(st.heap)
        if fn.kind == 'CXXConstructorDecl':
            pre.alloc = z3.simplify(st.alloc - 1) if False else st.alloc
        c0 = CCtx(X, st, st, fn, obj, args); c0.ctor = fn.kind == 'CXXConstructorDecl'
        if con.setup: con.setup(c0)
        if case is not None: con.setup_case(c0, case); args = c0.args
        for n, f in con.requires(c0): st.assume(f)
        if con.lemmas:
            for n, f in con.lemmas(c0):
                X.ob(st, 'lemma: ' + n, f, 'lemma')
        pre = st.copy()
        X.pre = pre
        X.precond = list(st.facts()); X.c0 = c0
        s = st.copy(); s.log = None
        outs = X.run_body(s, fn)
        nret = nthr = 0
        for s2, k, v in outs:
            if k in ('ret', 'next'):
                ptype = fn.type.split('(')[0].strip()
                res = v
                c = CCtx(X, pre, s2, fn, obj, args, res); c.ctor = c0.ctor
                if isinstance(v, Loc) and not (con.returns is None):
                    res = X.val(s2, v)
                c.result = res
                c.result_loc = v
                nret += 1
                for et, cond in con.throws:
                    X.ob(s2.copy(), 'throws %s when it must' % et, z3.Not(cond(c)), 'post')
                if con.returns is not None:
                    want = con.returns(c)
                    rt = X.prog.ptype(ptype) if fn.kind != 'CXXConstructorDecl' else VOID
                    if want is not None:
                        if isinstance(res, It):
                            X.ob(s2.copy(), 'returned iterator', z3.And(z3.BoolVal(sameloc(res.loc, want.loc)), res.idx == want.idx), 'post')
                        else: X.ob(s2.copy(), 'result', X.ctx.eq(rt, res, want), 'post')
                s3 = s2.copy()
                for n, f in con.ensures(c):
                    X.ob(s3 if con.chain else s2.copy(), n, f, 'post')
                for g, v in con.sets(c).items(): X.ob(s2.copy(), 'new value of ' + g, c.g_(g) == v, 'post')
                frame_obligations(X, s2, c, con, con.modifies(c), '')
            elif k == 'throw':
                nthr += 1
                c = CCtx(X, pre, s2, fn, obj, args, None); c.ctor = c0.ctor
                conds = [cond(c) for et, cond in con.throws if exc_is(v.t, et) or v.t == et]
                if not any(exc_is(v.t, et) or v.t == et for et in con.may_throw):
                    if v.t not in ('length_error',) or conds:
                        X.ob(s2.copy(), 'throws %s only when it should' % v.t, z3.Or(*conds) if conds else z3.BoolVal(False), 'post')
                    else: X.trusted.add('requests beyond the maximal container size are not considered')
                mods = con.modifies(c) if con.on_throw == 'modifies' else con.on_throw(c) if callable(con.on_throw) else []
                if con.throw_ensures:
                    c.exc = v.t
                    for n, f in con.throw_ensures(c): X.ob(s2.copy(), n + ' (when throwing)', f, 'post')
                if not c.ctor: frame_obligations(X, s2, c, con, mods, ' (when throwing)')
            else: raise Unsupported('function ends with ' + k)
        X.outs = (nret, nthr)
        X.final = outs
    finally: X.reg.verifying.pop()

def havoc_loc(X, st, m):
    if isinstance(m, tuple) and m[0] == 'H':
        key = (m[1], m[2]); t = X.field_type(key)
        old = st.heap[key] if key in st.heap else X.heap0(key)
        if len(m) == 3: st.heap[key] = fresh('Hh', old.sort())
        else:
            v = X.ctx.fresh('hv', t)
            st.heap[key] = sto(old, m[3], v)
            for f in X.ctx.wf(t, v, st.alloc): st.assume(f)
        if st.log is not None: st.log.append((('H', key), () if len(m) == 3 else (('o', m[3], None),)))
        return
    if isinstance(m, tuple) and m[0] in ('V', 'G'):
        t = X.ghost_t[m[1]] if m[0] == 'V' else m[2]
        l = Loc((m[0], m[1]), (), t); X.read(st, l)
        v = X.ctx.fresh(m[1], t); X.write(st, l, v)
        for f in X.ctx.wf(t, v, st.alloc): st.assume(f)
        return
    if isinstance(m, Ptr): m = m.loc
    if isinstance(m, Loc):
        if m.root[0] == 'O':
            for o, n, ft in X.prog.all_fields(m.t.a): havoc_loc(X, st, X.field(st, m, n))
            return
        cur = st.cells.get(m.root) if m.root[0] != 'H' and not m.path else None
        if isinstance(cur, It):
            idx = fresh('it', X.ctx.isort()); st.cells[m.root] = It(cur.loc, idx, cur.kind)
            if st.log is not None: st.log.append((m.root, ()))
            return
        if m.t.k in ('opq', 'exc'): return
        v = X.ctx.fresh('hv', m.t)
        X.write(st, m, v)
        for f in X.ctx.wf(m.t, v, st.alloc): st.assume(f)
        return
    raise Unsupported('havoc of %r' % (m,))

def thrown(X, st, con, pre, fn, obj, args, et=None):
    if con.throw_ensures:
        c = CCtx(X, pre, st, fn, obj, args); c.ctor = fn.kind == 'CXXConstructorDecl'; c.exc = et
        for nm, f in con.throw_ensures(c): st.assume(f)

def expose(X, st):
    """local vectors whose elements others may write through their addresses: what those addresses hold"""
    out = {}
    for root, (base, vt) in X.exposed.items():
        if root not in st.cells: continue
        key = (('$slot', vt.args[0].a), '$value'); old = st.heap[key] if key in st.heap else X.heap0(key); v = st.cells[root]; ln = X.ctx.vlen(vt, v)
        new = fresh('Hslots', old.sort()); q = fresh('q', z3.IntSort())
        st.assume(forall_range(z3.IntVal(0), ln, lambda j: sel(new, base + j) == X.ctx.vget(vt, v, j)))
        st.heap[key] = new; out[root] = (base, vt, ln, key)
        if st.log is not None: st.log.append((('H', key), ()))
    return out

def apply(X, st, con, fn, obj, args, n):
    """a call is replaced by the callee's contract"""
    if con.assumed: X.assumed_used.add(con.name + (': ' + con.note if con.note else ''))
    pre = st.copy()
    c = CCtx(X, pre, pre, fn, obj, args); c.ctor = fn.kind == 'CXXConstructorDecl'
    for nm, f in con.requires(c):
        X.ob(st, 'precondition of %s: %s' % (con.name, nm), f, 'call', n)
    for et, cond in con.throws:
        if X.choose(st, cond(c)):
            if con.allocates and con.on_throw != 'nothing': na = fresh('alloc', z3.IntSort()); st.assume(na >= st.alloc); st.alloc = na
            if con.on_throw == 'modifies':
                for m in con.modifies(c): havoc_loc(X, st, m)
            elif callable(con.on_throw):
                for m in con.on_throw(c): havoc_loc(X, st, m)
            thrown(X, st, con, pre, fn, obj, args, et)
            raise CxxThrow(Exc(et))
    if con.may_throw:
        i = X.choose_n(st, 1 + len(con.may_throw))
        if i > 0:
            if con.allocates and con.on_throw != 'nothing': na = fresh('alloc', z3.IntSort()); st.assume(na >= st.alloc); st.alloc = na
            for m in (con.modifies(c) if con.on_throw == 'modifies' else con.on_throw(c) if callable(con.on_throw) else []): havoc_loc(X, st, m)
            thrown(X, st, con, pre, fn, obj, args, con.may_throw[i - 1])
            raise CxxThrow(Exc(con.may_throw[i - 1]))
    slots = expose(X, st) if con.slots else {}
    if slots: c = CCtx(X, st.copy(), st, fn, obj, args); c.ctor = False
    pre = st.copy()
    if con.allocates:
        na = fresh('alloc', z3.IntSort()); st.assume(na >= st.alloc); st.alloc = na
    new = con.sets(c)
    for m in con.modifies(c):
        if isinstance(m, tuple) and m[0] == 'V' and m[1] in new: X.write(st, Loc(('V', m[1]), (), X.ghost_t[m[1]]), z3.simplify(new[m[1]]))
        else: havoc_loc(X, st, m)
    ptype = fn.type.split('(')[0].strip()
    rt = X.prog.ptype(ptype) if fn.kind not in ('CXXConstructorDecl', 'CXXDestructorDecl') else VOID
    res = None
    c = CCtx(X, pre, st, fn, obj, args); c.ctor = fn.kind == 'CXXConstructorDecl'
    if con.returns is not None: res = con.returns(c)
    elif rt.k in ('void',): res = None
    elif rt.k in ('opq', 'exc'): res = Opaque(rt.a)
    else:
        res = X.ctx.fresh('r_' + fn.name.replace(' ', '_'), rt)
        for f in X.ctx.wf(rt, res, st.alloc): st.assume(f)
    c.result = res
    for nm, f in con.ensures(c): st.assume(f)
    if con.derived:
        for nm, f in con.derived(c): st.assume(f)
    for root, (base, vt, ln, key) in slots.items():
        v = X.ctx.fresh('written', vt); st.assume(X.ctx.vlen(vt, v) == ln, forall_range(z3.IntVal(0), ln, lambda j: X.ctx.vget(vt, v, j) == sel(st.heap[key], base + j)))
        for f in X.ctx.wf(vt, v, st.alloc): st.assume(f)
        X.write(st, Loc(root, (), vt), v)
    if ptype.endswith('&') and isinstance(res, z3.ExprRef):
        if rt.k == 'rec' and rt.extra is None and res.sort() == z3.IntSort(): return Loc(('O', res), (), rt)
        return X.newcell(st, rt, res)
    return res

class Registry:
    """contracts of a specification, models of external behaviour, ghost state"""
    def __init__(self):
        self.contracts = []; self.verifying = []; self.ghosts = {}; self.ghost_fields = {}; self.guards = {}
        self.extern = {}; self.methods = []; self.streams = None; self.functors = []; self.init_globals = {}
        self.sorts = None; self.slots = False; self.embedded = set(); self._emb = []; self.opaque = {}; self.members = {}
    def embedded_id(self, nm):
        if nm not in self._emb: self._emb.append(nm)
        return self._emb.index(nm)
    def add(self, *cs): self.contracts += cs; return cs[0]
    def replace(self, con):
        """in place of a contract another specification gave"""
        self.contracts = [x for x in self.contracts if x.qual != con.qual] + [con]
    def lookup(self, X, fn, obj):
        for con in self.contracts:
            if con.matches(fn):
                if self.verifying and con is self.verifying[0] and len(X.call_stack) == 0 and False: return None
                return con
        # an overriding function is called through the contract of the function it overrides when it has none itself
        if fn.virtual and fn.cls is not None:
            for b in self._allbases(X, fn.cls.key):
                for con in self.contracts:
                    cb = X.prog.cls.get(b)
                    if cb is not None and con.qual == cb.qual + '::' + fn.name and (con.sig is None or con.sig in fn.type) and (con.nparams is None or con.nparams == len(fn.params)): return con
        return None
    def _allbases(self, X, key):
        out = []
        for b in X.prog.bases(key): out += [b] + self._allbases(X, b)
        return out
    def ghost_field_type(self, X, key):
        if key in self.ghost_fields: return self.ghost_fields[key]
        if isinstance(key[0], tuple) and key[0][0] == '$slot': return T('ref', key[0][1])
        if key == ('fftw_complex[]', '$data'): return VEC(CX)
        if key == ('$list', '$data'): return VEC(STR)
        raise ExtractError('ghost field %s' % (key,))
    def global_value(self, X, st, loc):
        if loc.root[0] == 'V':
            return self.initial_global(X, loc.root)
        q = loc.root[1]
        node, tu = find_var(X.prog, q)
        if node is not None and is_const_var(node):
            init = [c for c in node.get('inner', []) if c and c.get('kind') and c['kind'] not in ('FullComment',)]
            if init:
                s = st.copy(); fn = st.fn
                class F: pass
                if fn is None or fn.tu is not tu:
                    f = F(); f.tu = tu; f.type = ''; f.qual = q; f.node = node; s.fn = f
                v = X.rv(s, init[0])
                return v
        return self.initial_global(X, loc.root, loc.path[0][2] if loc.path and loc.path[0][2] is not None else loc.t)
    def initial_global(self, X, root, t=None):
        if root not in self.init_globals_of(X):
            if root[0] == 'V': t = X.ghost_t[root[1]]
            if t is None: return None
            v = X.ctx.fresh('g_' + root[1].split('::')[-1], t)
            self.init_globals_of(X)[root] = v
            X.rtypes[root] = t
        return self.init_globals_of(X)[root]
    def init_globals_of(self, X):
        if not hasattr(X, '_ig'): X._ig = {}
        return X._ig
    def static_local(self, X, st, d, init):
        q = d['type']['qualType']
        root = ('L', d['id'])
        if q.startswith('const ') and init:
            st.cells[root] = X.rv(st, init[0]); return
        raise Unsupported('static local variable')
    def exact_dispatch(self, X, fn, obj):
        return obj.root[0] not in ('O',)
    def devirtualise(self, X, fn, obj):
        cls = obj.t.a
        b = X.prog.body_of(fn)
        subs = set(); todo = [cls]
        while todo:
            k = todo.pop()
            for s in X.prog.subclasses.get(k, []):
                if s not in subs: subs.add(s); todo.append(s)
        over = [f for s in subs for f in X.prog.cls[s].methods if f.name == fn.name and len(f.params) == len(fn.params) and f.virtual]
        X.trusted.add('the class hierarchy is the one in the repository')
        impl = [f for f in over]
        if b is not None and not impl: return b
        if b is None and len(impl) == 1: return X.prog.body_of(impl[0])
        return None
    # hooks with default behaviour
    def on_lock(self, X, st, m):
        for h in self.guards.get('lock', []): h(X, st, m)
    def on_unlock(self, X, st, m):
        for h in self.guards.get('unlock', []): h(X, st, m)
    def external(self, X, st, n, name, decl, args):
        f = self.extern.get(name)
        return f(X, st, n, args) if f else NotImplemented
    def opaque_construct(self, X, st, t, args, n): return self.opaque[t.a](X, st, n, args) if t.a in self.opaque else Opaque(t.a)
    def opaque_method(self, X, st, n, name, raw, b, args):
        for pat, nm, f in self.methods:
            if nm == name and pat in raw: return f(X, st, n, b, args)
        if ('ostream' in raw or 'ofstream' in raw or 'ios' in raw) and name in ('precision', 'flush', 'close', 'setf', 'width', 'operator<<'):
            for a in args: X.rv(st, a)
            return z3.IntVal(0)
        if name == 'what': return fresh('what', z3.StringSort())
        return NotImplemented
    def opaque_compare(self, X, st, op, a, b): return NotImplemented
    def stream(self, X, st, op, args, n):
        raw = X.prog.raw(args[0])
        if op == '<<' and 'stream' in raw:
            s = X.ev(st, args[0])
            try: X.ev(st, args[1])
            except Unsupported: pass
            X.trusted.add('writing to a stream changes nothing but the stream')
            return s
        if self.streams: return self.streams(X, st, op, args, n)
        return NotImplemented
    def functor(self, X, st, n, decl, args):
        for pat, f in self.functors:
            if pat in X.prog.raw(args[0]): return f(X, st, n, args)
        return NotImplemented
    def call_value(self, X, st, n, callee, args): return NotImplemented
    def rand(self, X, st, n):
        """the random source: a fixed but unknown sequence of draws, consumed one by one"""
        X.trusted.add('rand() returns some sequence of values in [0, RAND_MAX]')
        l = Loc(('V', 'rndpos'), (), X.ghost_t['rndpos'])
        p = X.read(st, l)
        v = rand_seq(X)(p)
        if X.ctx.bv: st.assume(v >= 0)
        else: st.assume(v >= 0, v <= 2147483647)
        X.write(st, l, z3.simplify(p + 1))
        return v
    def sort_order(self, X, st, et, comp, compnode, n):
        if self.sorts: return self.sorts(X, st, et, comp, compnode, n)
        if et.k in ('real', 'int'):
            raw = X.prog.raw(compnode) if compnode is not None else ''
            if 'greater' in raw: return lambda a, b: a > b
            return lambda a, b: a < b
        if et.k == 'rec' and comp is None:
            return None
        return None

def rand_seq(X):
    s = z3.BitVecSort(64) if X.ctx.bv else z3.IntSort()
    return z3.Function('RandSeq' + ('B' if X.ctx.bv else ''), s, z3.BitVecSort(32) if X.ctx.bv else z3.IntSort())

FACTS['RandSeq'] = lambda x: [x >= 0, x <= 2147483647]
FACTS['RandSeqB'] = lambda x: [x >= 0]

def is_const_var(n):
    q = n['type'].get('desugaredQualType', n['type']['qualType'])
    return n['type']['qualType'].startswith('const ') or q.startswith('const ') or n.get('constexpr')

def find_var(P, q):
    best = None
    for tu in P.tus:
        for vid, (qual, node) in tu.vars.items():
            prev = node.get('previousDecl')
            q2 = tu.vars[prev][0] if prev in tu.vars else qual
            if q2 == q or qual == q:
                if node.get('init') or any(c and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator')) for c in node.get('inner', [])): return node, tu
                best = best or (node, tu)
    return best or (None, None)
