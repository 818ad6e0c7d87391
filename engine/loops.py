"""Loop summaries: closed forms guessed from one symbolic iteration, then proved as inductive invariants;
everything the summary cannot express is havocked and constrained by candidate invariants that are proved too."""
import z3, re
from .terms import *
from .exec import *
from . import solve as SV
from .lib import mdom, mval, msize

class LeafDesc:
    def __init__(self, loc, kind): self.loc, self.kind = loc, kind     # kind: 'val' | 'it' | 'alloc'

def _num(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1

class View:
    """what an author invariant sees of a state"""
    def __init__(self, X, st, k, fn, pre=None):
        self.X, self.st, self.k, self.fn, self.pre = X, st, k, fn, pre or self
    def var(self, name, nth=0):
        ids = []
        for c in self.st.cells:
            if c[0] == 'L':
                for tu in self.X.prog.tus:
                    d = tu.decl.get(c[1])
                    if d is not None and d.get('name') == name: ids.append(c); break
        if not ids: raise KeyError(name)
        # innermost: prefer declarations of the current function
        own = [c for c in ids if self.owner(c[1])]
        c = (own or ids)[nth]
        v = self.st.cells[c]
        if isinstance(v, Loc): return self.X.read(self.st, v)
        return v
    def owner(self, did):
        st = [self.fn.node]
        while st:
            x = st.pop()
            if x.get('id') == did: return True
            st.extend(y for y in x.get('inner', []) or [] if y)
        return False
    def field(self, name, obj=None):
        o = self.st.this if obj is None else Loc(('O', obj), (), T('rec', self.X.field_cls(obj)))
        return self.X.read(self.st, self.X.field(self.st, o, name))
    def hfield(self, cls, name):
        k = (cls, name)
        return self.st.heap[k] if k in self.st.heap else self.X.heap0(k)
    def ghost(self, name):
        return self.X.read(self.st, Loc(('V', name), (), self.X.ghost_t[name]))
    def typ(self, name):
        for tu in self.X.prog.tus:
            for d in tu.decl.values():
                if d.get('name') == name and d.get('kind') in ('VarDecl', 'ParmVarDecl') and self.owner(d['id']): return self.X.prog.type_of(d)
        raise KeyError(name)

def run_iter(X, s, cond, inc, body):
    """one iteration from head state s: returns (exits, continues, others)"""
    exits, conts, others = [], [], []
    outs = X.explore(s, lambda q: X.rv(q, cond)) if cond is not None else [(s, 'next', z3.BoolVal(True))]
    for q, k, v in outs:
        if k != 'next': others.append((q, k, v)); continue
        vs = z3.simplify(v)
        if not z3.is_true(vs) and (z3.is_false(vs) or X.feasible(q, z3.Not(v))):
            e = q.copy(); e.decide(z3.Not(v)); exits.append((e, 'next', None))
        if z3.is_false(vs): continue
        if not z3.is_true(vs):
            if not X.feasible(q, v): continue
            q = q.copy(); q.decide(v)
        for r, kk, vv in X.stmt(q, body) if body is not None else [(q, 'next', None)]:
            if kk in ('next', 'cnt'):
                if inc is not None:
                    for r2, k2, v2 in X.explore(r, lambda z: (X.ev(z, inc), None)[1]):
                        if k2 == 'next': conts.append(r2)
                        else: others.append((r2, k2, v2))
                else: conts.append(r)
            elif kk == 'brk': exits.append((r, 'next', 'brk'))
            else: others.append((r, kk, vv))
    return exits, conts, others

def unroll_loop(X, st, cond, inc, body, node, bound, must):
    cur = [st]; res = []; exits = []
    for it in range(bound + 1):
        nxt = []
        for s in cur:
            if not must:
                vs = X.explore(s, lambda q: X.rv(q, cond)) if cond is not None else []
                if len(vs) != 1 or vs[0][1] != 'next' or not (z3.is_true(z3.simplify(vs[0][2])) or z3.is_false(z3.simplify(vs[0][2]))): return None
            if it == bound:
                if not must: return None
                es, cs, os = run_iter(X, s, cond, inc, body) if False else ([], [], [])
                for q, k, v in X.explore(s, lambda q: X.rv(q, cond)):
                    if k != 'next': res.append((q, k, v)); continue
                    X.ob(q, 'loop ends within %d iterations' % bound, z3.Not(v), 'bound', node)
                    exits.append((q, 'next', None))
                continue
            es, cs, os = run_iter(X, s, cond, inc, body)
            exits += es; res += os
            if len(cs) > 1:
                m = X.merge(s, cs)
                cs = [m[0]] if m is not None else cs
            nxt += cs
        cur = nxt
        if not cur: break
    if len(exits) > 1:
        m = X.merge(st, [e[0] for e in exits])
        exits = [(m[0], 'next', None)] if m is not None else [(e[0], 'next', None) for e in exits]
    return res + [(e[0], 'next', None) for e in exits]

def exec_loop(X, st, cond, inc, body, node):
    X.loop_depth = getattr(X, 'loop_depth', 0) + 1
    try:
        if X.unroll: return unroll_loop(X, st, cond, inc, body, node, X.unroll, True)
        if X.loop_depth < 4:
            # a loop whose condition is decided by constants is executed completely
            nobs = len(X.obs)
            r = unroll_loop(X, st, cond, inc, body, node, 12, False)
            if r is not None: return r
            del X.obs[nobs:]
        return general_loop(X, st, cond, inc, body, node)
    finally: X.loop_depth -= 1

def leaves_of(X, loc, t, out):
    if t.k == 'cx': out.append(LeafDesc(loc.sub(('re', None, None), REAL), 'val')); out.append(LeafDesc(loc.sub(('im', None, None), REAL), 'val'))
    elif t.k == 'vec':
        out.append(LeafDesc(loc.sub(('len', None, t), U64), 'val')); out.append(LeafDesc(loc.sub(('arr', None, t), T('arr', None, [t.args[0]])), 'val'))
    elif t.k == 'rec':
        for f, ft in X.ctx.recfields(t): leaves_of(X, loc.sub(('f', f, t), ft), ft, out)
    else: out.append(LeafDesc(loc, 'val'))

def general_loop(X, st, cond, inc, body, node):
    mark = next(terms_ctr())
    def loopmade(e):
        return any(_num(str(c.decl().name())) >= mark for c in subterms(e) if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    fn = st.fn
    # ---- 1. which locations change
    units = []        # list of (root, path)
    alloc_mod = False
    X.dry += 1
    try:
        for rnd in range(8):
            s = st.copy(); s.log = []
            leaves = build_leaves(X, st, units)
            havoc(X, s, leaves, {}, None)
            if alloc_mod: s.alloc = fresh('alloc', z3.IntSort()); s.assume(s.alloc >= st.alloc)
            a0 = s.alloc
            _, conts, _ = run_iter(X, s, cond, inc, body)
            new = False
            for c in conts:
                if not c.alloc.eq(a0) and not alloc_mod: alloc_mod = True; new = True
                for root, path in c.log:
                    u = normalise_unit(X, st, root, path, loopmade)
                    if u is not None and not covered(u, units):
                        units = [w for w in units if not covered(w, [u])] + [u]; new = True
            if not new: break
        else: raise Unsupported('loop modification analysis does not stabilise')
        leaves = build_leaves(X, st, units)
        # ---- 2. recurrences from one iteration
        h = {}
        s = st.copy(); s.log = []
        syms = havoc(X, s, leaves, {}, None)
        if alloc_mod: s.alloc = fresh('alloc', z3.IntSort()); s.assume(s.alloc >= st.alloc)
        head_syms = syms
        pc0 = len(s.pc)
        condv = None
        try:
            cs_ = X.explore(s, lambda q: X.rv(q, cond)) if cond is not None else []
            if len(cs_) == 1 and cs_[0][1] == 'next': condv = cs_[0][2]
        except Unsupported: condv = None
        exits, conts, others = run_iter(X, s, cond, inc, body)
        early = bool(others) or any(v == 'brk' for _, _, v in exits)
        k = fresh('k', z3.IntSort())
        closed = {}
        if conts:
            m = X.merge(s, conts) if len(conts) > 1 else (conts[0], None)
            F = m[0] if m is not None else None
        else: F = None
        vals0 = [leafval(X, st, l) for l in leaves]
        if F is not None:
            newv = [leafval(X, F, l) for l in leaves]
            solve_recurrences(X, leaves, syms, vals0, newv, k, closed, mark, s)
        # guard of one completed iteration (for early exits and bounds)
        subs = lambda e, kk: z3.simplify(z3.substitute(e, *[(syms[i], closed[i](kk)) for i in closed])) if closed else e
        def expressible(e):
            return not any(_num(str(c.decl().name())) >= mark and not c.eq(k) for c in subterms(e) if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        guards = []
        if F is not None:
            for tag, f in F.pc[pc0:]:
                if tag != 'd': continue
                for g in conjuncts(z3.simplify(f)):
                    g2 = subs(g, k)
                    if expressible(g2): guards.append(g2)
        condk = None
        if condv is not None:
            c2 = subs(condv, k)
            condk = c2
        # ---- 3. candidate invariants (over the head symbols and k)
        unsolved = [i for i in range(len(leaves)) if i not in closed]
        cands = []
        if condv is not None: cands += bound_candidates(X, z3.simplify(condv), syms)
        for i in unsolved: cands += leaf_candidates(X, leaves[i], syms[i], vals0[i], st, s, F and newv[i], k)
        if conts: cands += map_candidates(X, leaves, syms, vals0, newv if F is not None else None, st)
        if conts: cands += scatter_candidates(X, leaves, syms, vals0, newv if F is not None else None, closed, unsolved, k, st, expressible)
        if F is not None: cands += wrap_candidates(X, leaves, syms, vals0, newv, closed, unsolved, k, mark, s)
        specs = []
        for sp in X.loop_specs:
            try: r = sp(LoopInfo(X, st, fn, cond, body, node))
            except KeyError: r = None
            if r: specs += list(r)
        # state builder
        def head():
            q = st.copy(); q.log = [] if st.log is None else list(st.log)
            q.assume(k >= 0)
            for i, l in enumerate(leaves):
                setleaf(X, q, l, closed[i](k) if i in closed else syms[i])
            for i in unsolved:
                l = leaves[i]
                if l.kind == 'val' and isinstance(syms[i], z3.ExprRef) and l.loc.t.k in ('int', 'ref'):
                    for f in X.ctx.wf(l.loc.t, syms[i], None): q.assume(f)
                if l.loc.path and l.loc.path[-1][0] == 'len' and not X.ctx.bv: q.assume(syms[i] >= 0, syms[i] <= (1 << 60))
            if alloc_mod:
                q.alloc = fresh('alloc', z3.IntSort()); q.assume(q.alloc >= st.alloc)
            q.log = list(q.log)
            return q
        def hist(q):
            if condk is not None and expressible(condk) and closed:
                q.assume(z3.Implies(k >= 1, z3.substitute(condk, (k, k - 1))))
            if early:
                for g in guards:
                    if z3.is_true(g) or (condk is not None and g.eq(z3.simplify(condk))): continue
                    j = fresh('j', z3.IntSort())
                    q.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.substitute(g, (k, j)))))
        def inst(c, q, kk, viewst):
            """candidate at a state"""
            kind, f = c[0], c[1]
            if kind == 'f':
                pairs = [(syms[i], leafval(X, q, leaves[i])) for i in range(len(leaves))] + [(k, kk)]
                return z3.substitute(f, *pairs)
            return f(View(X, q, kk, fn, pre=View(X, st, z3.IntVal(0), fn)))
        allc = [('f', f, n) for n, f in cands] + [('s', f, n) for n, f in specs]
        keep = []; jobs = []; fs0 = st.facts()
        for c in allc:
            try: f = inst(c, st, z3.IntVal(0), st)
            except KeyError: continue
            except Unsupported: continue
            jobs.append((c, (fs0, f, 1500, c[0] == 'f')))
        for (c, _), ok in zip(jobs, SV.check_many(X, [j for _, j in jobs])):
            if ok: keep.append(c)
            else: X.notes.add('invariant candidate dropped at entry: %s (%s)' % (c[2], X.cur))
        for rnd in range(9):
            if not keep: break
            q = head(); hist(q)
            for c in keep: q.assume(inst(c, q, k, q))
            _, conts2, _ = run_iter(X, q, cond, inc, body)
            fss = [r.facts() for r in conts2]
            jobs = [(c, (fs, inst(c, r, k + 1, r), 3000, c[0] == 'f')) for c in keep for r, fs in zip(conts2, fss)]
            bad = []
            for (c, _), ok in zip(jobs, SV.check_many(X, [j for _, j in jobs])):
                if not ok and c not in bad: bad.append(c)
            if not bad: break
            # false automatic candidates are dropped first: with them the others may only have been too hard
            if rnd < 6 and any(c[0] == 'f' for c in bad): bad = [c for c in bad if c[0] == 'f']
            for c in bad: X.notes.add('invariant candidate dropped: %s (%s)' % (c[2], X.cur))
            keep = [c for c in keep if c not in bad]
    finally: X.dry -= 1
    # ---- 4. the recorded pass
    ln = node_line(node)
    for c in keep:
        X.ob(st.copy() if X.dry else st_noassume(st), 'loop invariant holds at entry: %s' % c[2], inst(c, st, z3.IntVal(0), st), 'loop', node)
    q = head(); hist(q)
    for c in keep: q.assume(inst(c, q, k, q))
    exits, conts, others = run_iter(X, q, cond, inc, body)
    for r in conts:
        for i in closed:
            l = leaves[i]
            nv = leafval(X, r, l); want = closed[i](k + 1)
            if nv.eq(want): goal = z3.BoolVal(True)
            elif nv.sort().kind() == z3.Z3_ARRAY_SORT:
                j = fresh('j', nv.sort().domain())
                goal = z3.ForAll([j], sel(nv, j) == sel(want, j))
            else: goal = nv == want
            X.ob(r.copy(), 'loop summary of %s is inductive' % leafname(X, l), goal, 'loop', node)
        for c in keep:
            X.ob(r.copy(), 'loop invariant is preserved: %s' % c[2], inst(c, r, k + 1, r), 'loop', node)
    res = []
    brks = [e for e in exits if e[2] == 'brk']; ends = [e for e in exits if e[2] != 'brk']
    if ends and not brks and len(ends) == 1:
        e = ends[0][0]
        kap = solve_k(X, e, condk, k) if condk is not None else None
        if kap is not None: e = subst_state(e, k, kap, len(st.pc))
        res.append((e, 'next', None))
    else:
        ex = ends + brks
        if len(ex) > 1:
            m = X.merge(st, [e[0] for e in ex])
            res += [(m[0], 'next', None)] if m is not None else [(e[0], 'next', None) for e in ex]
        else: res += [(e[0], 'next', None) for e in ex]
    if getattr(X, 'name_arrays', False):
        # arrays given by their elements get a name, their elements being an assumption
        for e, _, _ in res:
            for i in closed:
                v = leafval(X, e, leaves[i])
                if not (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_ARRAY_SORT and v.sort().domain() == z3.IntSort()) or not any(is_lambda(x) for x in subterms(v)): continue
                A = fresh('named', v.sort()); j = fresh('j', z3.IntSort())
                e.assume(z3.ForAll([j], z3.Select(A, j) == sel(v, j), patterns=[z3.Select(A, j)])); setleaf(X, e, leaves[i], A)
    return res + others

def st_noassume(st):
    return st.copy()

class LoopInfo:
    def __init__(self, X, st, fn, cond, body, node):
        self.X, self.st, self.fn, self.node = X, st, fn, node
        self.qual = fn.qual if fn is not None else ''
        self.line = node_line(node)
    def ordinal(self):
        loops = []
        def walk(n):
            if not n: return
            if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'): loops.append(n['id'])
            for c in n.get('inner', []) or []: walk(c)
        walk(self.fn.node)
        return loops.index(self.node['id']) if self.node['id'] in loops else -1

def terms_ctr():
    from . import terms
    return terms._ctr

def leafname(X, l):
    r = l.loc.root
    if r[0] == 'L':
        for tu in X.prog.tus:
            d = tu.decl.get(r[1])
            if d is not None: nm = d.get('name'); break
        else: nm = 'local'
    elif r[0] == 'H': nm = '%s::%s' % (r[1][0] if isinstance(r[1][0], str) else r[1][0][0], r[1][1])
    else: nm = str(r[1])
    for kind, x, _ in l.loc.path:
        nm += {'f': '.%s' % x, 'i': '[..]', 'o': '', 're': '.re', 'im': '.im', 'len': '.size', 'arr': '.elements', 'm': '[key]'}[kind]
    return nm

def leafval(X, st, l):
    if l.kind in ('mvis', 'mkey', 'mmore'):
        v = st.cells[l.loc.root]
        if v.kind != 'mapit': raise Unsupported('iterator changes its kind')
        return {'mvis': v.extra[0], 'mkey': v.idx, 'mmore': v.extra[1]}[l.kind]
    if l.kind == 'it':
        v = st.cells[l.loc.root]
        return v.idx
    return X.read(st, l.loc)
def setleaf(X, st, l, v):
    if l.kind in ('mvis', 'mkey', 'mmore'):
        o = st.cells[l.loc.root]; vis, more = o.extra
        st.cells[l.loc.root] = It(o.loc, v if l.kind == 'mkey' else o.idx, 'mapit', (v if l.kind == 'mvis' else vis, v if l.kind == 'mmore' else more))
        if st.log is not None: st.log.append((l.loc.root, ()))
        return
    if l.kind == 'it':
        o = st.cells[l.loc.root]
        st.cells[l.loc.root] = It(o.loc, v, o.kind, o.extra)
        if st.log is not None: st.log.append((l.loc.root, ()))
    else: X.write(st, l.loc, v)

def havoc(X, s, leaves, closed, k):
    syms = []
    for l in leaves:
        v0 = leafval(X, s, l)
        if not isinstance(v0, z3.ExprRef): raise Unsupported('loop modifies a non-term value')
        c = fresh('h', v0.sort()); syms.append(c)
        setleaf(X, s, l, c)
        if l.kind == 'val' and l.loc.t.k in ('int', 'ref') and not X.ctx.bv:
            for f in X.ctx.wf(l.loc.t, c, s.alloc if l.loc.t.k == 'ref' and False else None): s.assume(f)
        if l.loc.path and l.loc.path[-1][0] == 'len' and not X.ctx.bv: s.assume(c >= 0, c <= (1 << 60))
    if s.log is not None: s.log = []
    return syms

def build_leaves(X, st, units):
    out = []
    for root, path in units:
        if root[0] == 'G' and root not in st.cells: st.cells[root] = X.reg.initial_global(X, root)
        if root[0] != 'H' and not path and isinstance(st.cells.get(root), It):
            it = st.cells[root]
            if it.kind == 'mapit':
                for kd in ('mvis', 'mkey', 'mmore'): out.append(LeafDesc(Loc(root, (), T('iter')), kd))
                continue
            if it.kind != 'vec': raise Unsupported('loop over a non-sequence iterator')
            out.append(LeafDesc(Loc(root, (), T('iter')), 'it')); continue
        if root[0] != 'H' and not path and not isinstance(st.cells.get(root), z3.ExprRef):
            raise Unsupported('loop modifies %r' % (st.cells.get(root),))
        t = unit_type(X, st, root, path)
        loc = Loc(root, path, t)
        if t is None: out.append(LeafDesc(Loc(root, path, T('arr')), 'val')); continue
        if path and path[-1][0] in ('arr', 'len', 're', 'im'): out.append(LeafDesc(loc, 'val'))
        else: leaves_of(X, loc, t, out)
    return out

def unit_type(X, st, root, path):
    if root[0] == 'H':
        if not path: return None
        t = X.field_type(root[1]); path = path[1:]
    elif root[0] == 'L':
        t = None
        for tu in X.prog.tus:
            d = tu.decl.get(root[1])
            if d is not None: t = X.prog.type_of(d); break
    elif root[0] == 'V': t = X.ghost_t[root[1]]
    else: t = X.rtypes.get(root)
    if t is None:
        v = st.cells.get(root)
        if isinstance(v, z3.ExprRef):
            srt = v.sort()
            t = BOOL if srt == z3.BoolSort() else REAL if srt == z3.RealSort() else I64 if srt == z3.IntSort() else None
    if t is None: raise Unsupported('type of loop location %r' % (root,))
    for kind, x, vt in path:
        if kind == 'f':
            t = dict(X.ctx.recfields(t))[x]
        elif kind == 'i': t = t.args[0]
        elif kind == 'm': t = t.args[1]
        elif kind == 'len': t = U64
        elif kind == 'arr': t = T('arr', None, [t.args[0]])
        elif kind in ('re', 'im'): t = REAL
    return t

def normalise_unit(X, st, root, path, loopmade):
    if root[0] in ('T',) and root not in st.cells: return None
    if root[0] == 'L' and root not in st.cells: return None
    if root[0] == 'O': return None
    out = []
    for step in path:
        kind, x, vt = step
        if kind in ('i', 'o', 'm') and loopmade(x):
            if kind == 'i': out.append(('arr', None, vt))
            break
        out.append(step)
    return (root, tuple(out))

def covered(u, units):
    for r, p in units:
        if r == u[0] and len(p) <= len(u[1]) and all(samestep(a, b) for a, b in zip(p, u[1])): return True
    return False

def conjuncts(f):
    if z3.is_and(f):
        out = []
        for c in f.children(): out += conjuncts(c)
        return out
    return [f]

# ------------------------------------------------------------------ recurrences
def solve_recurrences(X, leaves, syms, vals0, newv, k, closed, mark, s):
    n = len(leaves)
    pend = set(range(n))
    ids = {syms[i].get_id(): i for i in range(n)}
    for rnd in range(n + 1):
        progress = False
        for i in sorted(pend):
            e = newv[i]
            if not isinstance(e, z3.ExprRef): continue
            sub = [(syms[j], closed[j](k)) for j in closed]
            e2 = drop_ifs(X, z3.substitute(e, *sub) if sub else e, k, s)
            made = [c for c in subterms(e2) if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and _num(str(c.decl().name())) >= mark]
            if any(not c.eq(k) and not c.eq(syms[i]) for c in made):
                # bound variables of lambdas created in the body are not constants; real loop-made constants block
                continue
            cf = closed_form(X, e2, syms[i], vals0[i], k, s)
            if cf is not None:
                closed[i] = cf; pend.discard(i); progress = True
        if not progress: break

def drop_ifs(X, e, k, s):
    """integer conversions of the counter: conditions that k >= 0 decides"""
    for rnd in range(4):
        done = True
        for t in subterms(e):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == z3.IntSort() and occurs(t.arg(0), k):
                q = s.copy(); q.assume(k >= 0)
                if X.quick(q, t.arg(0)): e = z3.substitute(e, (t, t.arg(1)))
                elif X.quick(q, z3.Not(t.arg(0))): e = z3.substitute(e, (t, t.arg(2)))
                else: continue
                done = False; break
        if done: break
    return e

def closed_form(X, e, h, x0, k, s):
    srt = e.sort()
    if e.eq(h): return lambda kk: x0
    if srt in (z3.IntSort(), z3.RealSort()):
        d = z3.simplify(e - h, som=True)
        if not occurs(d, h):
            if not occurs(d, k):
                if srt == z3.IntSort():
                    if z3.is_int_value(d) and d.as_long() == 1: return lambda kk: z3.simplify(x0 + kk) if z3.is_int_value(x0) else x0 + kk
                    return lambda kk: x0 + d * kk
                if z3.is_rational_value(d) and d.as_fraction() == 0: return lambda kk: x0
                return lambda kk: x0 + d * z3.ToReal(kk)
            if srt == z3.IntSort() and not unwrap(d).eq(d): return None      # left to the candidates
            # keep the summand as the code writes it when possible
            sm = summand(e, h)
            if sm is None: sm = d
            def cf(kk, sm=sm):
                j = fresh('s', z3.IntSort())
                f = z3.Lambda([j], z3.substitute(sm, (k, j)))
                S = (SumR if srt == z3.RealSort() else SumI)(f, z3.IntVal(0), kk)
                if (z3.is_int_value(x0) or z3.is_rational_value(x0)) and x0.as_fraction() == 0 if z3.is_rational_value(x0) else (z3.is_int_value(x0) and x0.as_long() == 0): return S
                return x0 + S
            return cf
        if not occurs(e, h): return lambda kk: last_value(e, x0, k, kk)
        if srt == z3.RealSort():
            c = z3.simplify(z3.substitute(e, (h, z3.RealVal(1))))
            if not occurs(c, k) and SV.poly_zero(e - c * h): return lambda kk: x0 * f_ipow(c, kk)
        return None
    if srt == z3.BoolSort():
        if not occurs(e, h): return lambda kk: last_value(e, x0, k, kk)
        ef = z3.simplify(z3.substitute(e, (h, z3.BoolVal(False)))); et = z3.simplify(z3.substitute(e, (h, z3.BoolVal(True))))
        if z3.is_false(ef):
            def cf(kk):
                j = fresh('j', z3.IntSort())
                return z3.And(x0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kk), z3.substitute(et, (k, j)))))
            return cf
        if z3.is_true(et):
            def cf(kk):
                j = fresh('j', z3.IntSort())
                return z3.Or(x0, z3.Exists([j], z3.And(0 <= j, j < kk, z3.substitute(ef, (k, j)))))
            return cf
        return None
    if srt.kind() == z3.Z3_ARRAY_SORT and srt.domain() == z3.IntSort():
        if not occurs(e, h): return lambda kk: last_value(e, x0, k, kk)
        idxs = []
        if not stores(e, h, idxs) or len(idxs) != 1: return None
        i = idxs[0]
        if occurs(i, h): return None
        step = z3.simplify(z3.substitute(i, (k, k + 1)) - i, som=True)
        if not z3.is_int_value(step) or step.as_long() not in (1, -1): return None
        i0 = z3.simplify(z3.substitute(i, (k, z3.IntVal(0))))
        val = sel(e, i)
        # the element itself is read before it was written in earlier iterations
        mk = z3.Select(h, i)
        val = z3.simplify(z3.substitute(z3.simplify(val), (z3.simplify(mk), sel(x0, i))))
        if occurs(val, h):
            val = z3.substitute(val, (mk, sel(x0, i)))
            if occurs(val, h): return None
        up = step.as_long() == 1
        def cf(kk):
            def el(j):
                kj = j - i0 if up else i0 - j
                kj = z3.simplify(kj)
                inr = z3.And(i0 <= j, j < i0 + kk) if up else z3.And(i0 - kk < j, j <= i0)
                v = z3.substitute(val, (k, kj))
                return s_ite(inr, v, sel(x0, j))
            return lam(z3.IntSort(), el)
        return cf
    if not occurs(e, h): return lambda kk: last_value(e, x0, k, kk)
    return None

def s_ite(c, a, b):
    return a if a.eq(b) else z3.If(c, a, b)
def last_value(e, x0, k, kk):
    if not occurs(e, k): return z3.If(kk == 0, x0, e) if not e.eq(x0) else x0
    return z3.If(kk == 0, x0, z3.substitute(e, (k, kk - 1)))
def summand(e, h):
    """e = h + r (or r + h): r"""
    if z3.is_add(e):
        ch = e.children()
        for i, c in enumerate(ch):
            if c.eq(h):
                rest = ch[:i] + ch[i + 1:]
                r = rest[0]
                for x in rest[1:]: r = r + x
                return None if occurs(r, h) else r
            s = summand(c, h)
            if s is not None:
                rest = [x for j, x in enumerate(ch) if j != i]
                r = s
                for x in rest: r = r + x
                return None if any(occurs(x, h) for x in rest) else r
    return None
def stores(e, h, idxs):
    if e.eq(h): return True
    if z3.is_app(e):
        kk = e.decl().kind()
        if kk == z3.Z3_OP_STORE:
            i = z3.simplify(e.arg(1))
            if not any(i.eq(x) for x in idxs): idxs.append(i)
            return stores(e.arg(0), h, idxs)
        if kk == z3.Z3_OP_ITE: return stores(e.arg(1), h, idxs) and stores(e.arg(2), h, idxs)
    if is_lambda(e):
        return False
    return False

# ------------------------------------------------------------------ candidates
def bound_candidates(X, c, syms):
    out = []
    for a in conjuncts(c):
        neg = False
        if z3.is_not(a): a = a.arg(0); neg = True
        if not z3.is_app(a) or a.num_args() != 2: continue
        l, r = a.arg(0), a.arg(1)
        if l.sort() not in (z3.IntSort(), z3.RealSort()): continue
        kk = a.decl().kind()
        nm = 'bound from loop condition'
        if kk in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            out.append((nm + ' (<=)', l <= r)); out.append((nm + ' (>=)', l >= r))
            if l.sort() == z3.IntSort():
                out.append((nm + ' (<= +1)', l <= r + 1)); out.append((nm + ' (>= -1)', l >= r - 1))
    return out

def leaf_candidates(X, l, h, x0, st, s, nv, k):
    out = []; n = leafname(X, l)
    if l.kind in ('mvis', 'mkey', 'mmore'): return []
    if l.kind == 'it': return [('iterator %s does not go back' % n, h >= x0)]
    if h.sort() in (z3.IntSort(), z3.RealSort()):
        if l.loc.t.k in ('int', 'real'):
            out += [('%s does not decrease' % n, h >= x0), ('%s does not increase' % n, h <= x0)]
            if l.loc.t.k == 'int': out += [('%s is not negative' % n, h >= 0)]
            if l.loc.path and l.loc.path[-1][0] == 'len': out += [('%s unchanged' % n, h == x0)]
        if l.loc.t.k == 'ref': out += [('%s is allocated' % n, h <= s.alloc)] if False else []
    if l.loc.root[0] == 'H' and not l.loc.path and h.sort().kind() == z3.Z3_ARRAY_SORT:
        r = fresh('r', z3.IntSort())
        out += [('%s of older objects unchanged' % n, z3.ForAll([r], z3.Implies(r <= st.alloc, sel(h, r) == sel(x0, r))))]
    return out

def map_candidates(X, leaves, syms, vals0, newv, st):
    """iteration over an associative container: visited entries have been processed, the others are as before"""
    out = []
    for i, l in enumerate(leaves):
        if l.kind != 'mvis': continue
        vis, key, more = syms[i], syms[i + 1], syms[i + 2]
        it = st.cells[l.loc.root]; mt = it.loc.t
        m0 = X.read(st, it.loc)
        mi = next((j for j, x in enumerate(leaves) if x.kind == 'val' and isinstance(syms[j], z3.ExprRef) and syms[j].sort() == m0.sort() and vals0[j].eq(m0)), None)
        m = syms[mi] if mi is not None else m0
        D, V = (lambda x: mdom(X.ctx, mt, x)), (lambda x: mval(X.ctx, mt, x))
        q = fresh('q', D(m0).sort().domain())
        out += [('current key is an unvisited entry', z3.Implies(more, z3.And(sel(D(m), key), z3.Not(sel(vis, key))))),
                ('at the end everything was visited', z3.Implies(z3.Not(more), z3.ForAll([q], z3.Implies(sel(D(m), q), sel(vis, q))))),
                ('visited keys were in the container', z3.ForAll([q], z3.Implies(sel(vis, q), sel(D(m0), q))))]
        if mi is not None:
            out.append(('unvisited entries are unchanged', z3.ForAll([q], z3.Implies(z3.Not(sel(vis, q)), z3.And(sel(D(m), q) == sel(D(m0), q), sel(V(m), q) == sel(V(m0), q))))))
            out.append(('visited entries keep their values', z3.ForAll([q], z3.Implies(sel(vis, q), sel(V(m), q) == sel(V(m0), q)))))
            out.append(('number of entries does not grow', z3.And(msize(X.ctx, mt, m) >= 0, msize(X.ctx, mt, m) <= msize(X.ctx, mt, m0))))
            out.append(('no entry is added', z3.ForAll([q], z3.Implies(sel(D(m), q), sel(D(m0), q)))))
            if newv is not None:
                d1 = z3.simplify(z3.substitute(sel(D(newv[mi]), key), (m, m0), (key, q), (more, z3.BoolVal(True))))
                v1 = z3.simplify(z3.substitute(sel(V(newv[mi]), key), (m, m0), (key, q), (more, z3.BoolVal(True))))
                bad = lambda e: any(occurs(e, syms[u]) for u in range(len(syms)))
                if not bad(d1): out.append(('visited entries are kept as the body decides', z3.ForAll([q], z3.Implies(sel(vis, q), sel(D(m), q) == d1))))
                if not bad(v1): out.append(('visited entries have the value the body gives', z3.ForAll([q], z3.Implies(z3.And(sel(vis, q), sel(D(m), q)), sel(V(m), q) == v1))))
    return out

def unwrap(e):
    """the value of an integer expression when no conversion or unsigned operation wraps around"""
    memo = {}
    def go(x):
        r = memo.get(x.get_id())
        if r is not None: return r
        r = x
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == z3.IntSort():
                d = z3.simplify(x.arg(1) - x.arg(2), som=True)
                if z3.is_int_value(d) and abs(d.as_long()) in (1 << 32, 1 << 64):
                    off = lambda a: abs(sum(v for m, v in SV.poly(a).items() if m == ()))
                    r = go(x.arg(2) if off(x.arg(2)) <= off(x.arg(1)) else x.arg(1)); memo[x.get_id()] = r; return r
            if x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() in (1 << 32, 1 << 64): r = go(x.arg(0)); memo[x.get_id()] = r; return r
            ch = [go(c) for c in x.children()]
            if any(not a.eq(b) for a, b in zip(ch, x.children())): r = x.decl()(*ch)
        memo[x.get_id()] = r; return r
    return go(e)
def wrap_candidates(X, leaves, syms, vals0, newv, closed, unsolved, k, mark, s):
    """integers whose updates have a closed form unless they wrap around"""
    out = []; forms = dict(closed)
    for rnd in range(3):
        for i in unsolved:
            if i in forms or not isinstance(newv[i], z3.ExprRef) or newv[i].sort() != z3.IntSort() or leaves[i].kind not in ('val', 'it'): continue
            e = z3.substitute(newv[i], *[(syms[j], forms[j](k)) for j in forms]) if forms else newv[i]
            e = unwrap(e)
            if any(not c.eq(k) and not c.eq(syms[i]) and z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and _num(str(c.decl().name())) >= mark for c in subterms(e)): continue
            cf = closed_form(X, e, syms[i], vals0[i], k, s)
            if cf is None: continue
            forms[i] = cf; out.append(('%s has its closed form' % leafname(X, leaves[i]), syms[i] == cf(k)))
    return out

def scatter_candidates(X, leaves, syms, vals0, newv, closed, unsolved, k, st, expressible):
    """heap fields written at p(k): the written ones have their new value, the others the old one"""
    out = []
    if newv is None: return out
    sub = [(syms[j], closed[j](k)) for j in closed]
    for i in unsolved:
        e = newv[i]
        if not isinstance(e, z3.ExprRef) or e.sort().kind() != z3.Z3_ARRAY_SORT: continue
        e2 = drop_ifs(X, z3.substitute(e, *sub) if sub else e, k, st)
        h = syms[i]; idxs = []
        if not stores(e2, h, idxs) or len(idxs) != 1: continue
        ix = idxs[0]
        bad = [c for c in subterms(ix) if z3.is_const(c) and any(c.eq(syms[j]) for j in unsolved)]
        if bad or not expressible(ix): continue
        n = leafname(X, leaves[i])
        r = fresh('r', ix.sort()); j = fresh('j', z3.IntSort())
        out.append(('%s changes only where written' % n,
            z3.ForAll([r], z3.Or(sel(h, r) == sel(vals0[i], r), z3.Exists([j], z3.And(0 <= j, j < k, r == z3.substitute(ix, (k, j))))))))
        val = z3.simplify(sel(e2, ix))
        val = z3.substitute(val, (z3.simplify(z3.Select(h, ix)), sel(vals0[i], ix)))
        if not any(occurs(val, syms[u]) for u in unsolved) and expressible(val):
            out.append(('%s has the written values' % n,
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), sel(h, z3.substitute(ix, (k, j))) == z3.substitute(val, (k, j))))))
    return out

# ------------------------------------------------------------------ exit
def solve_k(X, e, condk, k):
    cands = []
    for a in conjuncts(z3.simplify(condk)):
        if z3.is_not(a): a = a.arg(0)
        if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != z3.IntSort(): continue
        d = z3.simplify(a.arg(0) - a.arg(1), som=True)
        d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        c = z3.simplify(d - d0, som=True)
        if c.eq(k): cands.append(z3.simplify(-d0))
        elif z3.simplify(-c).eq(k): cands.append(d0)
        else:
            cc = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - d0)
            if z3.is_int_value(cc) and cc.as_long() == 1 and z3.is_true(z3.simplify(d - d0 == k)): cands.append(z3.simplify(-d0))
    for c in list(cands): cands += [z3.simplify(c + 1), z3.simplify(c - 1)]
    for c in cands:
        if not occurs(c, k) and X.quick(e, k == c, 400): return c
    for c in list(cands):
        if not occurs(c, k) and X.quick(e, k == z3.If(c >= 0, c, 0), 400): return z3.If(c >= 0, c, z3.IntVal(0))
    return None

def subst_state(s, k, v, npc):
    r = s.copy()
    f = lambda x: z3.substitute(x, (k, v)) if isinstance(x, z3.ExprRef) else It(floc(x.loc), z3.substitute(x.idx, (k, v)), x.kind, x.extra) if isinstance(x, It) else Loc(x.root if x.root[0] != 'O' else ('O', z3.substitute(x.root[1], (k, v))), tuple((a, z3.substitute(b, (k, v)) if isinstance(b, z3.ExprRef) else b, c) for a, b, c in x.path), x.t) if isinstance(x, Loc) else x
    def floc(l): return f(l)
    r.cells = {a: f(b) for a, b in r.cells.items()}
    r.heap = {a: f(b) for a, b in r.heap.items()}
    r.pc = r.pc[:npc] + [(t, z3.substitute(g, (k, v))) for t, g in r.pc[npc:]]
    r.alloc = f(r.alloc)
    return r
