"""Back end: splitting of obligations, ground lemma instances (finite sums, real functions), polynomial normal form, z3."""
import z3, time, subprocess, tempfile, os
from fractions import Fraction
from .terms import *
from .exec import has_quant, relevant, consts_of, Exec

# ------------------------------------------------------------------ polynomial normal form
# random seed of the solver; obligations left open are tried again with others
SEED = [0]
BEAT = [None]     # told the time limit before each call of the solver, None after it
def timed_check(s, ms):
    if BEAT[0]: BEAT[0](ms)
    try: return s.check()
    finally:
        if BEAT[0]: BEAT[0](None)
_pc = {}
def poly(e):
    i = e.get_id()
    if i in _pc and _pc[i][1].eq(e): return _pc[i][0]
    p = _poly(e); _pc[i] = (p, e)
    return p
def padd(a, b, c=1):
    r = dict(a)
    for m, v in b.items():
        s = r.get(m, 0) + c * v
        if s: r[m] = s
        elif m in r: del r[m]
    return r
def pmul(a, b):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            d = dict(m)
            for x, k in n: d[x] = d.get(x, 0) + k
            key = tuple(sorted(((x, k) for x, k in d.items() if k), key=repr))
            s = r.get(key, 0) + v * w
            if s: r[key] = s
            elif key in r: del r[key]
    if len(r) > 400: raise OverflowError
    return r
def pkey(p): return tuple(sorted(((m, v) for m, v in p.items()), key=repr))
def patom(key): return {((key, 1),): Fraction(1)}
def _poly(e):
    if z3.is_int_value(e): return {(): Fraction(e.as_long())} if e.as_long() else {}
    if z3.is_rational_value(e): 
        f = e.as_fraction(); return {(): f} if f else {}
    k = e.decl().kind() if z3.is_app(e) else None
    ch = e.children() if k is not None else []
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch: r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]: r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return padd({}, poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch: r = pmul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        d = poly(ch[1])
        if set(d) == {()}: return {m: v / d[()] for m, v in poly(ch[0]).items()}
        return pmul(poly(ch[0]), pinv(d))
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
        n = int(ch[1].as_fraction()) if z3.is_rational_value(ch[1]) else ch[1].as_long()
        if 0 <= n <= 8:
            r = {(): Fraction(1)}
            for _ in range(n): r = pmul(r, poly(ch[0]))
            return r
    if k == z3.Z3_OP_TO_REAL: return poly(ch[0])
    if k == z3.Z3_OP_UNINTERPRETED and not ch: return patom(('c', e.decl().name(), str(e.sort())))
    return patom(akey(e))
def pinv(d):
    """inverse of a polynomial: monomials are inverted factor by factor"""
    if len(d) == 1:
        (m, v), = d.items()
        return {tuple(sorted(((('inv', x) if not (isinstance(x, tuple) and x and x[0] == 'inv') else x[1], k) for x, k in m), key=repr)): 1 / v}
    # normalise leading coefficient
    ks = sorted(d.items(), key=repr); lead = ks[0][1]
    return {((('inv', pkey({m: v / lead for m, v in d.items()})), 1),): 1 / lead}
_ak = {}
def akey(e):
    i = e.get_id()
    if i in _ak and _ak[i][1].eq(e): return _ak[i][0]
    if z3.is_app(e) and e.num_args():
        args = []
        for c in e.children():
            if c.sort() in (z3.IntSort(), z3.RealSort()): args.append(pkey(poly(c)))
            elif z3.is_app(c) and c.num_args() and not z3.is_quantifier(c): args.append(akey(c))
            else: args.append(('id', c.get_id()) if not z3.is_const(c) else ('c', str(c.decl().name())))
        k = ('a', e.decl().name(), e.decl().kind(), tuple(args))
    elif z3.is_app(e): k = ('c', str(e.decl().name()), str(e.sort()))
    else: k = ('id', e.get_id())
    _ak[i] = (k, e)
    return k
def poly_zero(e):
    try: return not poly(z3.simplify(e, som=False))
    except OverflowError: return False

# ------------------------------------------------------------------ goal splitting
def split(hyps, goal, out, depth=0):
    goal = goal if not z3.is_bool(goal) or True else goal
    if z3.is_true(goal): return
    if depth > 60: out.append((hyps, goal)); return
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [fresh(goal.var_name(i).split('!')[0], goal.var_sort(i)) for i in range(goal.num_vars())]
        b = z3.substitute_vars(goal.body(), *cs[::-1])
        return split(hyps, b, out, depth + 1)
    if not z3.is_app(goal): out.append((hyps, goal)); return
    k = goal.decl().kind(); ch = goal.children()
    if k == z3.Z3_OP_AND:
        for c in ch: split(hyps, c, out, depth + 1)
        return
    if k == z3.Z3_OP_IMPLIES: return split(hyps + [ch[0]], ch[1], out, depth + 1)
    if k == z3.Z3_OP_NOT:
        a = ch[0]
        if z3.is_not(a): return split(hyps, a.arg(0), out, depth + 1)
        if z3.is_or(a):
            for c in a.children(): split(hyps, z3.Not(c), out, depth + 1)
            return
        if z3.is_and(a):
            cs = a.children()
            return split(hyps + cs[:-1], z3.Not(cs[-1]), out, depth + 1)
        if z3.is_quantifier(a): 
            if a.is_exists():
                cs = [fresh(a.var_name(i).split('!')[0], a.var_sort(i)) for i in range(a.num_vars())]
                return split(hyps, z3.Not(z3.substitute_vars(a.body(), *cs[::-1])), out, depth + 1)
        if z3.is_implies(a): 
            split(hyps, a.arg(0), out, depth + 1); split(hyps, z3.Not(a.arg(1)), out, depth + 1); return
        out.append((hyps, goal)); return
    if k == z3.Z3_OP_OR:
        # prove the last disjunct under the negation of the others; quantified disjuncts go last
        cs = sorted(ch, key=lambda c: 1 if has_quant(c) else 0)
        if len(cs) > 1 and sum(1 for c in cs if has_quant(c)) <= 1:
            return split(hyps + [z3.Not(c) for c in cs[:-1]], cs[-1], out, depth + 1)
        out.append((hyps, goal)); return
    if k == z3.Z3_OP_ITE:
        split(hyps + [ch[0]], ch[1], out, depth + 1); split(hyps + [z3.Not(ch[0])], ch[2], out, depth + 1); return
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and len(ch) == 2:
        a, b = ch; s = a.sort()
        if s == z3.BoolSort() and (has_quant(a) or has_quant(b)):
            split(hyps + [a], b, out, depth + 1); split(hyps + [b], a, out, depth + 1); return
        if s.kind() == z3.Z3_DATATYPE_SORT and s.num_constructors() == 1:
            c0 = s.constructor(0)
            from .terms import _is_ctor
            if _is_ctor(a) or _is_ctor(b):
                for i in range(c0.arity()):
                    acc = s.accessor(0, i)
                    split(hyps, (a.arg(i) if _is_ctor(a) else acc(a)) == (b.arg(i) if _is_ctor(b) else acc(b)), out, depth + 1)
                return
        if s.kind() == z3.Z3_ARRAY_SORT and not a.eq(b):
            i = fresh('x', s.domain())
            return split(hyps, sel(a, i) == sel(b, i), out, depth + 1)
    out.append((hyps, goal))

def flatten_hyps(hyps):
    out = []; st = list(hyps)[::-1]
    seen = set()
    while st:
        h = st.pop()
        if z3.is_true(h): continue
        if z3.is_and(h): st.extend(h.children()[::-1]); continue
        if z3.is_not(h):
            a = h.arg(0)
            if z3.is_or(a): st.extend([z3.Not(c) for c in a.children()][::-1]); continue
            if z3.is_not(a): st.append(a.arg(0)); continue
            if z3.is_implies(a): st.append(z3.Not(a.arg(1))); st.append(a.arg(0)); continue
            if z3.is_quantifier(a) and a.is_forall():
                cs = [fresh(a.var_name(i).split('!')[0], a.var_sort(i)) for i in range(a.num_vars())]
                st.append(z3.Not(z3.substitute_vars(a.body(), *cs[::-1]))); continue
            if z3.is_quantifier(a) and a.is_exists():
                cs = [fresh('nv', a.var_sort(i)) for i in range(a.num_vars())]
                st.append(z3.ForAll(cs, z3.Not(z3.substitute_vars(a.body(), *cs[::-1])))); continue
        if z3.is_quantifier(h) and h.is_exists():
            cs = [fresh(h.var_name(i).split('!')[0], h.var_sort(i)) for i in range(h.num_vars())]
            st.append(z3.substitute_vars(h.body(), *cs[::-1])); continue
        if z3.is_eq(h):
            a, b = h.children()
            from .terms import _is_ctor
            if _is_ctor(a) and _is_ctor(b) and a.decl().eq(b.decl()):
                st.extend([x == y for x, y in zip(a.children(), b.children())]); continue
        if h.get_id() in seen: continue
        seen.add(h.get_id())
        out.append(h)
    return out

# ------------------------------------------------------------------ ground terms
def ground_terms(e, seen):
    """subterms that are not under a binder"""
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        if z3.is_quantifier(x): continue
        stack.extend(x.children())
        yield x

def has_var(e, cache={}):
    i = e.get_id()
    if i in cache and cache[i][1].eq(e): return cache[i][0]
    r = False
    stack = [(e, 0)]; seen = set()
    while stack:
        x, d = stack.pop()
        if (x.get_id(), d) in seen: continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d: r = True; break
        elif z3.is_quantifier(x): stack.append((x.body(), d + x.num_vars()))
        else: stack.extend((c, d) for c in x.children())
    cache[i] = (r, e)
    return r

MATH = {'m_exp', 'm_sin', 'm_cos', 'm_sqrt', 'm_log', 'm_asin', 'm_pow', 'm_ipow'}
PI_LO, PI_HI = z3.RealVal('31415926535/10000000000'), z3.RealVal('31415926536/10000000000')

def math_lemmas(terms, allterms):
    out = []
    apps = {}
    if FACTS:
        for x in terms:
            if z3.is_app(x) and x.decl().name() in FACTS: out += FACTS[x.decl().name()](x)
    for x in terms:
        if z3.is_app(x) and x.decl().name() in MATH: apps.setdefault(x.decl().name(), []).append(x)
    if any(z3.is_const(x) and x.eq(PI) for x in terms): out += [PI >= PI_LO, PI <= PI_HI]
    for n, xs in apps.items():
        for i, x in enumerate(xs):
            a = x.arg(0)
            if n == 'm_sqrt': out += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0)]
            elif n == 'm_exp': out += [x > 0, z3.Implies(a == 0, x == 1), z3.Implies(a > 0, x > 1), z3.Implies(a < 0, x < 1)]
            elif n == 'm_sin':
                out += [x >= -1, x <= 1, z3.Implies(a == 0, x == 0)]
                for y in apps.get('m_cos', []):
                    if poly_zero(y.arg(0) - a): out.append(x * x + y * y == 1)
            elif n == 'm_cos': out += [x >= -1, x <= 1, z3.Implies(a == 0, x == 1)]
            elif n == 'm_asin': out += [z3.Implies(a == 1, x == PI / 2), PI >= PI_LO, PI <= PI_HI]
            elif n == 'm_log': out += [z3.Implies(a == 1, x == 0), z3.Implies(a > 1, x > 0)]
            elif n == 'm_pow':
                b = x.arg(1)
                out += [z3.Implies(b == 0, x == 1), z3.Implies(b == 1, x == a), z3.Implies(a > 0, x > 0), z3.Implies(b == 2, x == a * a)]
                for y in xs[:i]:
                    if y.arg(0).eq(a):
                        out += [z3.Implies(z3.And(a > 0, b == y.arg(1) + 1), x == y * a), z3.Implies(z3.And(a > 0, y.arg(1) == b + 1), y == x * a),
                                z3.Implies(z3.And(a > 1, b > y.arg(1)), x > y), z3.Implies(z3.And(a > 1, b < y.arg(1)), x < y)]
            elif n == 'm_ipow':
                b = x.arg(1)
                out += [z3.Implies(b == 0, x == 1), z3.Implies(b == 1, x == a), z3.Implies(a > 0, x > 0)]
                for y in xs:
                    for z in xs:
                        if y.get_id() <= z.get_id() and y.arg(0).eq(a) and z.arg(0).eq(a) and len(xs) <= 12 and poly_zero(y.arg(1) + z.arg(1) - b): out.append(z3.Implies(a != 0, x == y * z))
                for y in xs[:i]:
                    if y.arg(0).eq(a): out += [z3.Implies(b == y.arg(1) + 1, x == y * a), z3.Implies(y.arg(1) == b + 1, y == x * a)]
                bs = z3.simplify(b)
                if not z3.is_int_value(bs):
                    d = f_ipow(a, z3.simplify(b - 1))
                    if not any(d.eq(y) for y in xs): out.append(z3.Implies(b >= 1, x == d * a))
            # congruence through the polynomial normal form
            for y in xs[:i]:
                if not all(p.eq(q) for p, q in zip(x.children(), y.children())):
                    if all(poly_zero(p - q) for p, q in zip(x.children(), y.children())): out.append(x == y)
    return out

def sum_lemmas(goal_sums, all_sums):
    out = []; done = set()
    def parts(s): return s.arg(0), s.arg(1), s.arg(2)
    def zero(s): return z3.RealVal(0) if s.sort() == z3.RealSort() else z3.IntVal(0)
    news = list(all_sums)
    for s in all_sums:
        f, lo, hi = parts(s)
        out.append(z3.Implies(hi <= lo, s == zero(s)))
        prev = s.decl()(f, lo, z3.simplify(hi - 1))
        prev = next((x for x in news if x.arg(1).eq(lo) and x.arg(2).eq(prev.arg(2)) and x.decl().eq(s.decl()) and alpha(x.arg(0), f)), prev)
        out.append(z3.Implies(lo < hi, s == prev + sel(f, z3.simplify(hi - 1))))
        if not any(prev.eq(x) for x in news): news.append(prev); out.append(z3.Implies(hi - 1 <= lo, prev == zero(s)))
    gs = list(goal_sums) + [s for s in all_sums if not any(s.eq(t) for t in goal_sums)]; ngoal = len(goal_sums) or len(gs)
    cnt = 0
    for si, s in enumerate(gs):
        f, lo, hi = parts(s)
        for t in news:
            if s.eq(t) or s.sort() != t.sort() or (si >= ngoal and not (lo.eq(t.arg(1)) and hi.eq(t.arg(2)))): continue
            key = tuple(sorted((s.get_id(), t.get_id())))
            if key in done: continue
            done.add(key)
            g, c, d = parts(t)
            cnt += 1
            if cnt > 60: break
            sk = fresh('sk', z3.IntSort())
            if lo.eq(c):
                cond = z3.Implies(z3.And(lo <= sk, sk < hi), sel(f, sk) == sel(g, sk))
                if hi.eq(d): out.append(z3.Implies(cond, s == t))
                else: out.append(z3.Implies(z3.And(hi == d, cond), s == t))
            else:
                cond = z3.Implies(z3.And(0 <= sk, sk < hi - lo), sel(f, lo + sk) == sel(g, c + sk))
                out.append(z3.Implies(z3.And(hi - lo == d - c, cond), s == t))
    return out

def closed_sums(fs):
    """sums without bound variables, under binders too"""
    out = []; seen = set()
    for f in fs:
        if not any(True for x in subterms(f) if is_sum(x)): continue
        for x in subterms(f, seen):
            if is_sum(x) and not has_var(x): out.append(x)
    return out
def alpha(f, g):
    return f.eq(g) or (is_lambda(f) and is_lambda(g) and f.var_sort(0) == g.var_sort(0) and z3.substitute_vars(f.body(), _can).eq(z3.substitute_vars(g.body(), _can)))
_can = z3.Int('s!canonical')
def same_sums(fs, goal):
    """sums that differ in the names of bound variables only become one"""
    rep = {}; sub = []; keep = []
    for t in closed_sums([goal] + fs):
        f = t.arg(0)
        if not is_lambda(f): continue
        b = z3.substitute_vars(f.body(), _can); keep.append(b)
        r = rep.setdefault((b.get_id(), t.arg(1).get_id(), t.arg(2).get_id(), t.decl().name()), t)
        if not r.eq(t): sub.append((t, r))
    if not sub: return fs, goal
    return [z3.substitute(f, *sub) for f in fs], z3.substitute(goal, *sub)
def sum_instances(hyps, goal):
    """facts about sums with a bound variable, at the index terms of the goal"""
    qs = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort() and any(is_sum(x) and has_var(x) for x in subterms(h.body()))]
    if not qs: return []
    idx = []
    def add(t):
        t = z3.simplify(t)
        if not has_var(t) and len(idx) < 8 and not any(t.eq(x) for x in idx): idx.append(t)
    for t in closed_sums([goal]): add(t.arg(2)); add(t.arg(2) - 1)
    for t in ground_terms(goal, {}):
        if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name(): add(t)
    for h in hyps[-12:]:
        for t in ground_terms(h, {}):
            if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(('k!', 'q!')): add(t)
    return [z3.substitute_vars(q.body(), i) for q in qs for i in idx]
def nested_instances(hyps, goal):
    """facts with nested quantifiers, at the constants that the goal introduces"""
    qs = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and h.num_vars() <= 2 and all(h.var_sort(i) == z3.IntSort() for i in range(h.num_vars())) and has_quant(h.body())]
    if not qs: return []
    idx = []
    def add(f, pre=None):
        for t in ground_terms(f, {}):
            if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name() and (pre is None or t.decl().name().startswith(pre)) and len(idx) < 5 and not any(t.eq(x) for x in idx): idx.append(t)
    add(goal, ('q!', 'g!', 'j!', 'i!', 'p!', 'r!'))
    for h in hyps[-8:][::-1]: add(h, ('q!', 'g!', 'j!', 'i!', 'p!', 'r!'))
    add(goal, ('k!',))
    for h in hyps[-8:][::-1]: add(h, ('k!',))
    out = []
    for q in qs:
        if q.num_vars() == 1: out += [z3.substitute_vars(q.body(), i) for i in idx]
        elif len(idx) <= 4: out += [z3.substitute_vars(q.body(), i, j) for i in idx for j in idx if not i.eq(j)]
    return out if len(out) <= 60 else []
def prepare(hyps, goal):
    """flatten, beta-reduce and add ground lemma instances; returns quantifier-aware list of assertions and the negated goal"""
    hyps = flatten_hyps(hyps)
    hyps = [norm(h) for h in hyps]
    goal = norm(goal)
    fs = hyps + [norm(h) for h in sum_instances(hyps, goal) + nested_instances(hyps, goal)]
    fs, goal = same_sums(fs, goal)
    seen = {}; gterms = [t for t in ground_terms(goal, seen)]
    gsum = closed_sums([goal])
    terms = list(gterms)
    for h in fs: terms += list(ground_terms(h, seen))
    sums = closed_sums([goal] + fs)
    lem = []
    if sums:
        lem += [norm(l) for l in sum_lemmas(gsum, sums)]
        seen2 = dict(seen)
        for l in lem: terms += list(ground_terms(l, seen2))
    lem += math_lemmas(terms, terms)
    allf = fs + lem
    # abstract ground sums
    if sums:
        reps = []
        reps = closed_sums(allf + [goal])
        # innermost first: sort by size
        reps.sort(key=lambda t: sum(1 for _ in subterms(t)))
        sub = [(t, fresh('S', t.sort())) for t in reps]
        # outer sums contain inner ones; substitute outermost-first via simultaneous substitution
        allf = [z3.substitute(f, *sub) for f in allf]
        goal = z3.substitute(goal, *sub)
    return allf, goal

def rsel(a, i, depth=0):
    if is_lambda(a): return red(z3.substitute_vars(a.body(), i))
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if distinct_syn(i, j): return rsel(a.arg(0), i)
            x, y = a.arg(2), rsel(a.arg(0), i)
            return x if x.eq(y) else z3.If(i == j, x, y)
        if k == z3.Z3_OP_CONST_ARRAY: return a.arg(0)
        if k == z3.Z3_OP_ITE:
            x, y = rsel(a.arg(1), i), rsel(a.arg(2), i)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
    return z3.Select(a, i)
def red(e, memo=None):
    """beta reduction and read-over-write everywhere"""
    if not _needs_beta(e): return e
    if z3.is_quantifier(e):
        cs = [fresh(e.var_name(i).split('!')[0], e.var_sort(i)) for i in range(e.num_vars())]
        b = red(z3.substitute_vars(e.body(), *cs[::-1]))
        return z3.Lambda(cs, b) if e.is_lambda() else z3.ForAll(cs, b) if e.is_forall() else z3.Exists(cs, b)
    if z3.is_var(e): return e
    ch = [red(c) for c in e.children()]
    if e.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2: return rsel(ch[0], ch[1])
    if z3.is_and(e): return z3.And(*ch)
    if z3.is_or(e): return z3.Or(*ch)
    return e.decl()(*ch)
def norm(e): return z3.simplify(red(e)) if _needs_beta(e) else e

def _needs_beta(e):
    for x in subterms(e):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            a = x.arg(0)
            if z3.is_quantifier(a): return True
            if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE): return True
    return False

def solve_z3(fs, goal, ms, opts=()):
    s = z3.Solver(); s.set('timeout', int(ms))
    if SEED[0]: s.set('random_seed', SEED[0])
    for k, v in opts: s.set(k, v)
    s.add(*fs); s.add(z3.Not(goal))
    r = timed_check(s, ms)
    return r, s

def ring_equal(goal):
    if z3.is_eq(goal) and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
        return poly_zero(goal.arg(0) - goal.arg(1))
    return False

def instances(quants, goal, limit=80):
    """ground instances of universally quantified facts at the index terms of the goal"""
    idx = []; out = []; seen = {}; done = set()
    def collect(f, cap):
        for t in ground_terms(f, seen):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).sort() == z3.IntSort() and len(idx) < cap:
                i = z3.simplify(t.arg(1))
                if not any(i.eq(x) for x in idx): idx.append(i)
    collect(goal, 10)
    for rnd in range(2):
        new = []
        for qi, q in enumerate(quants):
            if not (z3.is_quantifier(q) and q.is_forall()) or any(q.var_sort(i) != z3.IntSort() for i in range(q.num_vars())): continue
            n = q.num_vars()
            combos = [(i,) for i in idx] if n == 1 else [(i, j) for i in idx for j in idx] if n == 2 and len(idx) <= 6 else []
            for cmb in combos:
                if len(out) + len(new) >= limit: return out + new
                key = (qi,) + tuple(c.get_id() for c in cmb)
                if key in done: continue
                done.add(key)
                f = norm(z3.substitute_vars(q.body(), *cmb[::-1]))
                if not has_quant(f): new.append(f)
        out += new
        for f in new: collect(f, 18)
    return out

def prove_atomic(hyps, goal, ms, quick=False):
    """returns (True/False/None, backend, solver or None)"""
    if z3.is_true(goal): return True, 'syntactic', None
    g = z3.simplify(goal)
    if z3.is_true(g): return True, 'syntactic', None
    if any(h.eq(goal) or h.eq(g) for h in hyps): return True, 'syntactic', None
    if ring_equal(goal) or ring_equal(g): return True, 'ring', None
    if any(z3.is_false(h) for h in hyps): return True, 'syntactic', None
    if END[0] is not None and time.time() > END[0]: return None, 'z3', None
    fs, g2 = prepare(hyps, goal)
    if z3.is_true(z3.simplify(g2)): return True, 'syntactic', None
    if ring_equal(g2): return True, 'ring', None
    quantifiers = [f for f in fs if has_quant(f)]
    qf = [f for f in fs if not has_quant(f)]
    gq = has_quant(g2)
    last = None
    tries = []
    if not gq:
        rq = relevant(qf, g2)
        tries.append((rq, min(ms, 1000), ()))
    rel = relevant(fs, g2)
    if quick: tries = [(a, 400, o) for a, t, o in tries] or [(rel, 600, ())]
    else: tries.append((rel, min(ms, 3000), ()))
    if quantifiers or not quick:
        ins = instances(quantifiers, g2)
        if ins or not quick: tries.append((relevant(qf + ins, g2), 400 if quick else min(ms, 2500), (('smt.arith.nl', False),)))
    if not quick:
        if ins: tries.append((relevant(qf + ins, g2), min(ms, 3000), ()))
        tries.append((rel, ms, (('smt.arith.solver', 2),)))
        if not gq: tries.append((relevant(qf, g2), ms, ('nlsat',)))
        tries.append((fs, ms, (('smt.mbqi', False),)))
    for asserts, t, opts in tries:
        if END[0] is not None: t = min(t, max(50, (END[0] - time.time()) * 1000))
        try:
            if opts == ('nlsat',):
                s = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
                s.set('timeout', int(t)); s.add(*asserts); s.add(z3.Not(g2)); r = timed_check(s, t)
            else: r, s = solve_z3(asserts, g2, t, opts)
        except z3.Z3Exception: continue
        if r == z3.unsat: return True, 'z3', None
        if r == z3.sat and not gq and len(asserts) == len(fs) and (asserts is fs or asserts is rel or (not quantifiers and not opts)): return False, 'z3', s
        last = s if r == z3.sat else last
    return None, 'z3', last

END = [None]       # the obligation in hand is given up at this time
def prove(hyps, goal, ms=10000):
    """returns dict(status, backend, time, failed goal, model)"""
    t0 = time.time()
    if END[0] is None:
        END[0] = t0 + 15 + 6 * ms / 1000
        try: return prove(hyps, goal, ms)
        finally: END[0] = None
    parts = []; split(list(hyps), goal, parts)
    backs = set()
    for hs, g in parts:
        r, b, s = prove_part(hs, g, ms)
        if r is not True:
            m = None
            if s is not None:
                try: m = s.model()
                except z3.Z3Exception: m = None
            return dict(status='failed' if r is False else 'unknown', backend=b, time=time.time() - t0, goal=g, model=m, parts=len(parts))
        backs.add(b)
    return dict(status='proved', backend='+'.join(sorted(backs)) or 'syntactic', time=time.time() - t0, parts=len(parts))

def prove_part(hs, g, ms):
    if DEFS and (uses_defs(g) or any(uses_defs(h) for h in hs)):
        # with the definitions opaque first, then expanded one by one, the latest first
        used = [n for n in DEFS if any(uses_defs(f, n) for f in [g] + hs)]
        if prove_part0(hs, g, min(ms, 2000))[0] is True: return True, 'z3', None
        for k in range(len(used) - 1, -1, -1):
            if k and not uses_defs(g, used[k]): continue
            parts = []; names = used[k:]
            split([expand(h, names) for h in hs], expand(g, names), parts); r = (True, 'syntactic', None)
            for h2, g2 in parts:
                r = prove_part0(h2, g2, ms if k == 0 else min(ms, 2000))
                if r[0] is not True: break
            if r[0] is True: return r
        return r
    return prove_part0(hs, g, ms)

def decide_conds(hs, g):
    """replaces the conditions of if-then-else terms that the quantifier-free integer hypotheses decide by true or false"""
    g0 = g; sol = None
    for rnd in range(4):
        g = norm(g); conds = []
        for t in ground_terms(g, {}):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_var(t):
                c = t.arg(0)
                if has_quant(c) or any(c.eq(x) for x in conds) or any(z3.is_app(x) and (x.sort() == z3.RealSort() or x.decl().kind() == z3.Z3_OP_ITE) for x in subterms(c)): continue
                conds.append(c)
        if not conds or len(conds) > 40: break
        if sol is None:
            sol = z3.Solver(); sol.set('timeout', 150)
            for h in flatten_hyps(hs):
                h = norm(h)
                if not has_quant(h) and not any(x.sort() == z3.RealSort() for x in subterms(h)): sol.add(h)
        sub = []
        for c in conds:
            for val in (True, False):
                sol.push(); sol.add(z3.Not(c) if val else c); r = sol.check(); sol.pop()
                if r == z3.unsat: sub.append((c, z3.BoolVal(val))); break
        if not sub: break
        g = z3.simplify(z3.substitute(g, *sub))
    return None if g.eq(g0) else g

def prove_part0(hs, g, ms):
    r, b, s = prove_atomic(hs, g, ms, quick=True)
    if r is not None: return r, b, s
    g2 = decide_conds(hs, g)
    if g2 is not None:
        if z3.is_true(g2): return True, 'z3', None
        if ring_equal(g2): return True, 'ring', None
        r2, b2, s2 = prove_atomic(hs, g2, ms, quick=True)
        if r2 is True: return r2, b2, s2
        g = g2
    g2 = sum_match(hs, g, ms)
    if g2 is not None:
        if ring_equal(g2): return True, 'ring', None
        r2, b2, s2 = prove_atomic(hs, g2, ms, quick=True)
        if r2 is True: return r2, b2, s2
        g = g2
    m = merge_consts(hs, g)
    if m is not None:
        hs, g = m
        r, b, s = prove_atomic(hs, g, ms, quick=True)
        if r is True: return r, b, s
    if case_split(hs, g, ms): return True, 'z3', None
    return prove_atomic(hs, g, ms)

def merge_consts(hs, g):
    """replaces a skolem constant of an equation by an integer constant of the goal it is provably equal to"""
    if not z3.is_eq(g) or g.arg(0).sort() != z3.RealSort(): return None
    cs = []
    for t in ground_terms(g, {}):
        if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(t.eq(x) for x in cs): cs.append(t)
    sk = [c for c in cs if c.decl().name().startswith('q!')]
    if not sk or len(cs) > 5: return None
    for q in sk:
        for c in cs:
            if c.eq(q): continue
            for d in (0, 1):
                if prove_atomic(hs, q == c + d, 500)[0] is True:
                    return [z3.substitute(h, (q, c + d)) for h in hs], z3.simplify(z3.substitute(g, (q, c + d)))
    return None

def is_sum(t): return z3.is_app(t) and t.decl().name() in ('SumR', 'SumI')
_depth = [0]
def sum_match(hyps, goal, ms):
    """rewrites sums of the goal that are provably equal term by term into one another"""
    if _depth[0] > 3: return None
    g = norm(goal)
    sums = []
    for t in ground_terms(g, {}):
        if is_sum(t) and not any(t.eq(x) for x in sums): sums.append(t)
    if len(sums) < 2 or len(sums) > 14: return None
    left = []
    if z3.is_app(g) and g.num_args() == 2:
        left = [t for t in ground_terms(g.arg(0), {}) if is_sum(t)]
    changed = False
    _depth[0] += 1
    try:
        done = set()
        for i, s in enumerate(sums):
            if i in done: continue
            for j in range(i + 1, len(sums)):
                t = sums[j]
                if j in done or s.sort() != t.sort(): continue
                if left and any(s.eq(x) for x in left) == any(t.eq(x) for x in left) : continue
                if not (poly_zero(s.arg(1) - t.arg(1)) and poly_zero(s.arg(2) - t.arg(2))): continue
                sk = fresh('sk', z3.IntSort())
                sub = sel(s.arg(0), sk) == sel(t.arg(0), sk)
                hs = hyps + [s.arg(1) <= sk, sk < s.arg(2)]
                if prove_part(hs, sub, min(ms, 2500))[0] is True:
                    g = z3.substitute(g, (t, s)); done.add(j); changed = True
    finally: _depth[0] -= 1
    return g if changed else None

def case_split(hyps, goal, ms, depth=0):
    """splits on the conditions of if-then-else terms; an equality of a constant is substituted away"""
    if depth > 7: return False
    goal = norm(goal)
    if not z3.is_app(goal): return False
    conds = []
    seen = {}
    for t in ground_terms(goal, seen):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_var(t):
            c = t.arg(0)
            if has_quant(c): continue
            if not any(c.eq(x) for x in conds): conds.append(c)
    if not conds or len(conds) > 12: return False
    # conditions without nested conditions first, equalities of constants before others
    def rank(c): return (sum(1 for x in subterms(c) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE), 0 if eqconst(c) else 1)
    conds.sort(key=rank)
    c = conds[0]
    for val in (True, False):
        lit = c if val else z3.Not(c)
        g = z3.substitute(goal, (c, z3.BoolVal(val)))
        h = hyps + [lit]
        e = eqconst(c) if val else None
        if e is not None:
            x, t = e
            g = z3.substitute(g, (x, t)); h = [z3.substitute(f, (x, t)) for f in hyps]
        g = z3.simplify(g)
        parts = []; split(h, g, parts)
        for hs, gg in parts:
            r, b, s = prove_atomic(hs, gg, ms, quick=True)
            if r is True: continue
            if r is False: return False
            if case_split(hs, gg, ms, depth + 1): continue
            r, b, s = prove_atomic(hs, gg, min(ms, 5000))
            if r is not True: return False
    return True

def eqconst(c):
    if not z3.is_eq(c): return None
    for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(t, x): return x, t
        # x + c == t
    a, b = c.arg(0), c.arg(1)
    if a.sort() == z3.IntSort():
        d = z3.simplify(a - b, som=True)
        for x in subterms(d):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
                for sg in (1, -1):
                    r = z3.simplify(d - sg * x, som=True)
                    if not occurs(r, x): return x, z3.simplify(-r if sg == 1 else r, som=True)
    return None

def check_valid(X, hyps, goal, ms, auto=False):
    ct = getattr(X, 'cand_time', None); outer = END[0] is None
    if ct and outer: END[0] = time.time() + (min(ct, 1.5) if auto else ct)
    try: return prove(hyps, goal, ms)['status'] == 'proved'
    except z3.Z3Exception: return False
    finally:
        if outer: END[0] = None

SEM = [None]
def check_many(X, jobs):
    """check_valid for every (hyps, goal, ms, auto): in processes of their own while slots are free, here otherwise"""
    import os, signal, multiprocessing as mp
    res = [None] * len(jobs); live = {}; todo = list(range(len(jobs)))
    if SEM[0] is None: SEM[0] = mp.Semaphore(7)
    sem = SEM[0]; spent = 0.0
    def reap(block):
        for pid in list(live):
            i, t0 = live[pid]
            try: p, st = os.waitpid(pid, 0 if False else os.WNOHANG)
            except ChildProcessError: p, st = pid, 1
            if p == 0:
                if time.time() - t0 > 2 * jobs[i][2] / 1000 + 25 + (getattr(X, "cand_time", None) or 0):
                    try: os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    os.waitpid(pid, 0); res[i] = False; del live[pid]; sem.release()
                continue
            res[i] = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0; del live[pid]; sem.release()
    while todo or live:
        # most checks are quick: processes are only used when they turn out not to be
        while spent > 0.7 and len(todo) > 1 and sem.acquire(False):
            i = todo.pop(); pid = os.fork()
            if pid == 0:
                ok = False
                try:
                    os.setpgid(0, 0); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(int(2 * jobs[i][2] / 1000 + 40 + (getattr(X, "cand_time", None) or 0))); ok = check_valid(X, *jobs[i])
                except BaseException: pass
                os._exit(0 if ok else 1)
            live[pid] = (i, time.time())
        if todo:
            i = todo.pop(0); t = time.time(); res[i] = check_valid(X, *jobs[i]); spent += time.time() - t
        elif live: time.sleep(0.01)
        reap(False)
    return res
