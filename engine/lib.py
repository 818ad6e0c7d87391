"""Models of the standard library, boost and FFTW calls the code makes.  Every model used is recorded in X.trusted."""
import z3
from fractions import Fraction
from .terms import *
from .terms import _is_ctor
from .exec import *
from .exec import mdom, mval, msize

MAXLEN = 1 << 60

def iv(X, n, t=U64): return z3.BitVecVal(n, t.a[0]) if X.ctx.bv else z3.IntVal(n)
def ile(X, a, b): return z3.ULE(a, b) if X.ctx.bv else a <= b
def ilt(X, a, b): return z3.ULT(a, b) if X.ctx.bv else a < b
def qrange(X, lo, hi, f):
    i = fresh('i', X.ctx.isort())
    return z3.ForAll([i], z3.Implies(z3.And(ile(X, lo, i), ilt(X, i, hi)), f(i)))

def trust(X, what): X.trusted.add(what)

# ------------------------------------------------------------------ objects
def new_object(X, st, t, ce, n):
    """new T(...)"""
    if t.k != 'ref': raise Unsupported('new of %r' % (t,))
    cls = t.a
    if n.get('isArray'):
        size = n['inner'][0]; m = X.conv(st, X.rv(st, size), X.prog.type_of(size), I64, n)
        X.ob(st, 'the size of an array is not negative', m >= 0, 'safety', n)
        r = fresh('new_array', z3.IntSort()); st.assume(r == st.alloc + 1, array_size(r) == m); one = X.alloc_obj(st, cls)
        # one element is constructed by its constructor, the others alike
        before = dict(st.heap); run_ctor(X, st, Loc(('O', one), (), T('rec', cls)), cls, ce)
        for k, h in list(st.heap.items()):
            o = before.get(k); 
            if o is not None and o.eq(h): continue
            if o is None: o = X.heap0(k)
            v = sel(h, one); q = fresh('q', z3.IntSort()); st.heap[k] = z3.Lambda([q], z3.If(z3.And(r <= q, q < r + m), v, sel(o, q)))
            if st.log is not None: st.log.append((('H', k), ()))
        st.alloc = fresh('alloc', z3.IntSort()); st.assume(st.alloc == r + m); return r
    r = X.alloc_obj(st, cls)
    loc = Loc(('O', r), (), T('rec', cls))
    run_ctor(X, st, loc, cls, ce)
    return r

array_size = z3.Function('array_size', z3.IntSort(), z3.IntSort())
def delete_object(X, st, p, t, n):
    if n.get('isArray') and t.k == 'ref':
        for f in X.reg.guards.get('delete[]', ()): f(X, st, p, t.a, n)
        trust(X, 'delete runs no observable destructor effects'); return None
    cls = t.a if t.k == 'ref' else None
    if cls in X.prog.cls:
        d = next((f for f in X.prog.cls[cls].methods if f.kind == 'CXXDestructorDecl' and not f.virtual), None)
        if d is not None and not d.implicit and (X.reg.lookup(X, d, None) is not None or X.prog.body_of(d) is not None):
            s0 = p != 0
            if X.choose(st, s0): X.call(st, d, Loc(('O', p), (), T('rec', cls)), [], n)
            return None
    trust(X, 'delete runs no observable destructor effects')
    return None

def class_ctors(X, cls):
    c = X.prog.cls.get(cls)
    if c is None: return []
    out = []
    for tu in X.prog.tus:
        for f in tu.fns:
            if f.kind == 'CXXConstructorDecl' and f.cls is not None and getattr(f.cls, 'key', None) == cls: out.append(f)
    return out

def run_ctor(X, st, loc, cls, ce, argvals=None):
    """run the constructor a CXXConstructExpr names on an object location"""
    P = X.prog
    if ce is None:
        init_default(X, st, loc, cls); return
    if ce['kind'] == 'ImplicitValueInitExpr': init_default(X, st, loc, cls); return
    ctype = ce.get('ctorType', {}).get('qualType', '')
    args = [a for a in ce.get('inner', []) if a and a.get('kind')]
    cands = [f for f in class_ctors(X, cls) if norm_t(f.type) == norm_t(ctype)]
    f = next((g for g in cands if not g.implicit), None)
    if f is None:
        # implicit constructor: default or copy / move
        if not args:
            init_default(X, st, loc, cls); return
        v = X.rv(st, args[0])
        X.write(st, loc, v); return
    vals = X.eval_args(st, f, args)
    g = X.prog.body_of(f) or f
    con = X.reg.lookup(X, g, loc)
    if con is not None:
        X.used_contracts.add(con.name)
        X.apply_contract(st, con, g, loc, vals, ce); return
    if g.body is None and not g.inits:
        if not f.params: init_default(X, st, loc, cls); return
        raise Unsupported('constructor without body: ' + f.qual)
    X.inline(st, g, loc, vals, ce)

def norm_t(s):
    import re
    s = s.replace(' noexcept', '')
    s = re.sub(r'\b(k52|optimization|dsp|common|parallel|thread|std|boost|SharedPtr)::', '', s)
    return re.sub(r'\s+', '', s)

def init_default(X, st, loc, cls):
    """default initialisation of the fields of a class without a user-written default constructor"""
    P = X.prog
    for b in P.bases(cls):
        if b in P.cls: run_default_ctor(X, st, loc, b)
    c = P.cls[cls]
    for f in c.fields:
        ft = P.type_of(f); fl = X.field(st, loc, f['name'])
        default_field(X, st, fl, ft, f)

def default_field(X, st, fl, ft, f=None):
    if f is not None:
        init = [c for c in f.get('inner', []) if c and c.get('kind') and c['kind'].endswith('Expr')]
        if init and f.get('hasInClassInitializer'):
            X.write(st, fl, X.rv(st, init[0])); return
    if ft.k in ('int', 'real', 'bool'): X.write(st, fl, X.ctx.fresh('uninit', ft))
    elif ft.k == 'rec' and ft.extra is None and ft.a in X.prog.cls: run_default_ctor(X, st, fl, ft.a)
    elif ft.k == 'opq' and ft.a in X.reg.opaque: X.write(st, fl, z3.IntVal(0))
    elif ft.k in ('opq', 'iter', 'exc', 'fn', 'ptr', 'arr2', 'void'): pass
    else:
        X.write(st, fl, X.ctx.default(ft))

def run_default_ctor(X, st, loc, cls):
    user = [f for f in class_ctors(X, cls) if not f.params and not f.implicit]
    if user:
        g = X.prog.body_of(user[0]) or user[0]
        con = X.reg.lookup(X, g, loc)
        if con is not None:
            X.used_contracts.add(con.name); X.apply_contract(st, con, g, loc, [], None); return
        if g.body is not None or g.inits: X.inline(st, g, loc, [], None); return
    init_default(X, st, loc, cls)

def default_value(X, st, t):
    """value of T()"""
    if t.k == 'rec' and t.extra is None and t.a in X.prog.cls:
        user = [f for f in class_ctors(X, t.a) if not f.params and not f.implicit]
        if user:
            l = X.newcell(st, t, X.ctx.fresh('obj', t))
            run_default_ctor(X, st, l, t.a)
            return X.read(st, l)
    return X.ctx.default(t)

def ctor_inits(X, st, fn):
    P = X.prog; this = st.this; cls = fn.cls.key
    # uninitialised members of this class
    names = set()
    for i in fn.inits:
        ai = i.get('anyInit')
        if ai: names.add(ai['name'])
    for i in fn.inits:
        sub = [c for c in i.get('inner', []) if c and c.get('kind')]
        if 'anyInit' in i:
            fl = X.field(st, this, i['anyInit']['name'])
            init_loc(X, st, fl, sub[0] if sub else None)
        elif 'baseInit' in i:
            bt = P.ptype(i['baseInit'].get('desugaredQualType', i['baseInit']['qualType']))
            if bt.k == 'rec' and bt.a in P.cls:
                e = strip(sub[0]) if sub else None
                run_ctor(X, st, this, bt.a, e)
        elif 'delegatingInit' in i:
            run_ctor(X, st, this, cls, strip(sub[0]))
            return
    for f in fn.cls.fields:
        if f['name'] not in names:
            default_field(X, st, X.field(st, this, f['name']), P.type_of(f), f)

def strip(e):
    while e['kind'] in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'FullExpr') and e['kind'] != 'CXXConstructExpr':
        if e['kind'] == 'ImplicitCastExpr' and e.get('castKind') not in ('NoOp', 'ConstructorConversion'): break
        e = e['inner'][0]
    return e

def init_loc(X, st, fl, e):
    if e is None:
        default_field(X, st, fl, fl.t); return
    k = strip(e)
    if fl.t.k == 'rec' and fl.t.extra is None and fl.t.a in X.prog.cls and k['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        run_ctor(X, st, fl, fl.t.a, k); return
    if fl.t.k == 'opq' and fl.t.a in X.reg.opaque and (k['kind'] != 'CXXConstructExpr' or not k.get('inner')): X.write(st, fl, z3.IntVal(0)); return
    if fl.t.k in ('opq', 'iter'): return
    if fl.t.k == 'rec' and fl.t.a == '$mutex':
        X.write(st, fl, X.ctx.default(fl.t)); return
    v = X.rv(st, e)
    if isinstance(v, (Opaque,)): return
    if isinstance(v, Ptr):
        # a field holding the address of a non-heap object: remembered by location
        st.cells[('P', fl.root, tuple((a, str(b)) for a, b, _ in fl.path))] = v
        raise Unsupported('field holds the address of a local object')
    X.write(st, fl, v)

def sized(X, st, n, what='vector'):
    """length of a new container: std::length_error beyond max_size"""
    big = ilt(X, iv(X, MAXLEN), n)
    if not X.quick(st, z3.Not(big)):
        if X.choose(st, big): raise CxxThrow(Exc('length_error'))
    trust(X, 'memory allocation succeeds')

def construct(X, st, n):
    P = X.prog; t = P.type_of(n); c = X.ctx
    ct = n.get('ctorType', {}).get('qualType', '')
    args = [a for a in n.get('inner', []) if a and a.get('kind')]
    args = [a for a in args if not (a['kind'] == 'CXXDefaultArgExpr')]
    if t.k == 'exc': return Exc(t.a)
    if t.k == 'vec':
        if n.get('hadMultipleCandidates') is None and t.args and '[' in P.raw(n) and 'vector' not in P.raw(n): raise Unsupported('array of class type')
        if not args: return c.default(t)
        ats = [P.type_of(a) for a in args]
        if ats[0].k == 'vec' and len(args) == 1: return X.rv(st, args[0])
        if ats[0].k == 'int' or ats[0].k == 'bool':
            m = X.rv(st, args[0]); m = X.conv(st, m, ats[0], U64, n)
            sized(X, st, m)
            if len(args) > 1: v = X.rv(st, args[1])
            else: v = default_value(X, st, t.args[0])
            return c.mkvec(t, m, z3.K(c.isort(), v))
        if ats[0].k == 'iter' or ats[0].k in ('ptr',):
            a, b = X.rv(st, args[0]), X.rv(st, args[1])
            return range_copy(X, st, a, b, t, n)
        if ats[0].k == 'rec' and 'initializer_list' in str(ats[0]): raise Unsupported('initializer list')
        raise Unsupported('vector constructor ' + ct)
    if t.k == 'str':
        if not args: return z3.StringVal('')
        return X.rv(st, args[0])
    if t.k == 'ref':
        if not args: return z3.IntVal(0)
        v = X.rv(st, args[0])
        return v
    if t.k == 'cx':
        if not args: return c.default(CX)
        ats = [P.type_of(a) for a in args]
        if ats[0].k == 'cx': return X.rv(st, args[0])
        re = X.rv(st, args[0]); re = X.conv(st, re, ats[0], REAL)
        im = X.conv(st, X.rv(st, args[1]), ats[1], REAL) if len(args) > 1 else z3.RealVal(0)
        return cx(re, im)
    if t.k == 'rec' and t.extra is not None:
        if t.a == '$mutex': return c.default(t)
        if not args: return c.default(t)
        if len(args) == 1: return X.rv(st, args[0])
        vs = []
        for a, (fn_, ft) in zip(args, t.extra): vs.append(X.conv(st, X.rv(st, a), P.type_of(a), ft))
        return c.rec(t)[1](*vs)
    if t.k == 'rec' and t.a in P.cls:
        ctype = ct
        if len(args) == 1 and P.type_of(args[0]) == t:
            user = [f for f in class_ctors(X, t.a) if norm_t(f.type) == norm_t(ctype) and not f.implicit]
            if not user: return X.rv(st, args[0])
        l = X.newcell(st, t, c.fresh('obj', t))
        X.rtypes[l.root] = t
        run_ctor(X, st, l, t.a, n)
        return X.read(st, l)
    if t.k == 'map':
        if not args: return c.default(t)
        return X.rv(st, args[0])
    if t.k == 'iter':
        if not args: return Opaque('iter')
        return X.rv(st, args[0])
    if t.k == 'opq':
        if t.a == 'lock': return lock(X, st, X.ev(st, args[0]), n)
        if len(args) == 1 and P.type_of(args[0]).k == 'iter': return X.rv(st, args[0])
        for a in args:
            try: X.ev(st, a)
            except Unsupported: pass
        return X.reg.opaque_construct(X, st, t, args, n)
    if t.k in ('int', 'real', 'bool') and args: return X.rv(st, args[0])
    raise Unsupported('construct %r' % (t,))

# ------------------------------------------------------------------ locks
def lock(X, st, m, n):
    if not isinstance(m, Loc): raise Unsupported('lock of a non-location')
    fl = m.sub(('f', 'locked', m.t), BOOL)
    X.ob(st, 'the lock is not taken twice by one thread', z3.Not(X.read(st, fl)), 'safety', n)
    X.write(st, fl, z3.BoolVal(True))
    X.reg.on_lock(X, st, m)
    return Opaque('lock', m)
def unlock(X, st, m):
    fl = m.sub(('f', 'locked', m.t), BOOL)
    if z3.is_false(z3.simplify(X.read(st, fl))): return
    X.reg.on_unlock(X, st, m)
    X.write(st, fl, z3.BoolVal(False))

# ------------------------------------------------------------------ sequences
def vlen(X, st, loc): return X.ctx.vlen(loc.t, X.readwf(st, loc))
def cur_vec(X, st, loc):
    v = X.readwf(st, loc)
    return X.ctx.vlen(loc.t, v), X.ctx.varr(loc.t, v)

def range_copy(X, st, a, b, t, n):
    if not isinstance(a, It) or not isinstance(b, It) or a.kind != 'vec' or not sameloc(a.loc, b.loc): raise Unsupported('range')
    ln, arr = cur_vec(X, st, a.loc)
    X.ob(st, 'iterator range is valid', z3.And(ile(X, iv(X, 0), a.idx), ile(X, a.idx, b.idx), ile(X, b.idx, ln)), 'safety', n)
    i0 = a.idx
    return X.ctx.mkvec(t, z3.simplify(b.idx - a.idx), lam(X.ctx.isort(), lambda j: sel(arr, z3.simplify(i0 + j))))

def subscript(X, st, a, i, n):
    c = X.ctx
    if isinstance(a, Loc) and a.t.k == 'cx':
        k = z3.simplify(i)
        if (z3.is_int_value(k) or z3.is_bv_value(k)) and k.as_long() in (0, 1): return a.sub(('re' if k.as_long() == 0 else 'im', None, None), REAL)
        raise Unsupported('fftw_complex index')
    if isinstance(a, Loc) and a.t.k == 'ref': a = X.read(st, a)
    if isinstance(a, Ptr): a = a.loc
    if isinstance(a, It):
        X.ob(st, 'index within the sequence', z3.And(ile(X, iv(X, 0), a.idx + i), ilt(X, a.idx + i, vlen(X, st, a.loc))), 'safety', n)
        return a.loc.sub(('i', a.idx + i, a.loc.t), a.loc.t.args[0])
    pt = X.prog.type_of(n['inner'][0])
    if isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort() and pt.k == 'ref' and pt.a in X.prog.cls:
        X.ob(st, 'index within the array', z3.And(a != 0, 0 <= i, i < array_size(a)), 'safety', n)
        return Loc(('O', a + i), (), T('rec', pt.a))
    if isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort():
        # fftw buffer
        X.ob(st, 'pointer is not null', a != 0, 'safety', n)
        t = VEC(CX); X.ghost_arr = True
        l = Loc(('H', ('fftw_complex[]', '$data')), (('o', a, None),), t)
        X.ob(st, 'index within the buffer', z3.And(0 <= i, i < c.vlen(t, X.read(st, l))), 'safety', n)
        return l.sub(('i', i, t), CX)
    if isinstance(a, Loc) and a.t.k == 'vec':
        X.ob(st, 'index within the array', z3.And(ile(X, iv(X, 0), i), ilt(X, i, vlen(X, st, a))), 'safety', n)
        return a.sub(('i', i, a.t), a.t.args[0])
    raise Unsupported('subscript of %r' % (a,))

def toidx(X, st, v, t):
    """signed/unsigned index value as an index term"""
    if X.ctx.bv:
        if v.size() == 64: return v
        return z3.SignExt(64 - v.size(), v) if t.a[1] else z3.ZeroExt(64 - v.size(), v)
    return v

def vec_elem(X, st, loc, i, n, checked=False):
    ln = vlen(X, st, loc)
    inr = z3.And(0 <= i, i < ln) if not X.ctx.bv else z3.ULT(i, ln)
    if checked:
        if not X.quick(st, inr):
            if not X.choose(st, inr): raise CxxThrow(Exc('out_of_range'))
    elif not z3.is_true(z3.simplify(inr)):
        X.ob(st, 'index within the sequence', inr, 'safety', n)
    return loc.sub(('i', i, loc.t), loc.t.args[0])

def push_back(X, st, loc, v):
    ln, arr = cur_vec(X, st, loc)
    trust(X, 'memory allocation succeeds')
    if not X.ctx.bv: st.assume(ln < MAXLEN)
    X.write(st, loc, X.ctx.mkvec(loc.t, z3.simplify(ln + 1), sto(arr, ln, v)))

def base_loc(X, st, base, callee):
    b = X.ev(st, base)
    if callee.get('isArrow'):
        b = X.val(st, b)
        if isinstance(b, Ptr): return b.loc
        if isinstance(b, Loc): return b
        t = X.prog.type_of(base)
        if isinstance(b, It): return X.it_deref(st, b, callee)
        return X.deref(st, b, t, callee)
    if isinstance(b, Loc): return b
    return X.newcell(st, X.prog.type_of(base), b) if isinstance(b, z3.ExprRef) else b

def member_call(X, st, n, callee, base, args):
    P = X.prog; c = X.ctx; name = callee['name']
    raw = P.raw(base)
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    b = base_loc(X, st, base, callee)
    bt = b.t if isinstance(b, Loc) else P.type_of(base)
    if isinstance(b, Loc) and bt.k == 'iter': bt = T('iter')
    if 'shared_ptr' in raw or 'scoped_ptr' in raw or 'sp_' in raw.split('<')[0]:
        if name in ('get', 'operator->'): return X.val(st, b)
        if name == 'operator bool': return X.val(st, b) != 0
        if name == 'reset':
            X.write(st, b, X.rv(st, args[0]) if args else z3.IntVal(0)); return None
        if name == 'operator!': return X.val(st, b) == 0
        if name == 'swap':
            o = X.ev(st, args[0]); v, w = X.val(st, b), X.val(st, o); X.write(st, b, w); X.write(st, o, v); return None
    if '_Bit_reference' in raw:
        if name == 'operator bool': return X.val(st, b)
        if name == 'flip': X.write(st, b, z3.Not(X.val(st, b))); return None
    if bt.k == 'vec': return vec_method(X, st, n, name, b, args)
    if bt.k == 'cx':
        v = X.val(st, b)
        if name in ('real', 'imag'):
            if args:
                nv = X.rv(st, args[0]); X.write(st, b, cx(nv, cim(v)) if name == 'real' else cx(cre(v), nv)); return None
            return cre(v) if name == 'real' else cim(v)
    if bt.k == 'str': return str_method(X, st, n, name, b, args)
    if bt.k == 'map': return map_method(X, st, n, name, b, args)
    if name == 'unlock' and 'unique_lock' in raw:
        v = X.val(st, b)
        if isinstance(v, Opaque) and v.what == 'lock':
            unlock(X, st, v.data); return None
    if name == 'operator=' and isinstance(b, Loc):
        v = X.rv(st, args[0]); X.write(st, b, v); return b
    r = X.reg.opaque_method(X, st, n, name, raw, b, args)
    if r is not NotImplemented: return r
    raise Unsupported('method %s of %s' % (name, raw[:80]))

def vec_method(X, st, n, name, b, args):
    P = X.prog; c = X.ctx; t = b.t
    if name in ('size', 'length'): return vlen(X, st, b)
    if name == 'empty': return vlen(X, st, b) == iv(X, 0)
    if name in ('begin', 'cbegin'): vlen(X, st, b); return It(b, iv(X, 0))
    if name in ('end', 'cend'): return It(b, vlen(X, st, b))
    if name in ('push_back', 'emplace_back', 'push'):
        a = args[0]
        v = X.rv(st, a); v = X.conv(st, v, P.type_of(a), t.args[0])
        push_back(X, st, b, v); return None
    if name in ('pop_back',):
        ln, arr = cur_vec(X, st, b)
        X.ob(st, 'pop_back on a non-empty sequence', ln != iv(X, 0), 'safety', n)
        X.write(st, b, c.mkvec(t, z3.simplify(ln - 1), arr)); return None
    if name in ('pop_front', 'pop'):
        ln, arr = cur_vec(X, st, b)
        X.ob(st, '%s on a non-empty sequence' % name, ln != iv(X, 0), 'safety', n)
        X.write(st, b, c.mkvec(t, z3.simplify(ln - 1), lam(c.isort(), lambda j: sel(arr, z3.simplify(j + 1))))); return None
    if name == 'front':
        ln = vlen(X, st, b)
        X.ob(st, 'front of a non-empty sequence', ln != iv(X, 0), 'safety', n)
        return b.sub(('i', iv(X, 0), t), t.args[0])
    if name == 'back':
        ln = vlen(X, st, b)
        X.ob(st, 'back of a non-empty sequence', ln != iv(X, 0), 'safety', n)
        return b.sub(('i', z3.simplify(ln - 1), t), t.args[0])
    if name in ('operator[]', 'at'):
        i = X.rv(st, args[0])
        return vec_elem(X, st, b, i, n, name == 'at')
    if name == 'clear':
        ln, arr = cur_vec(X, st, b)
        X.write(st, b, c.mkvec(t, iv(X, 0), arr)); return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args: X.rv(st, a)
        trust(X, 'memory allocation succeeds'); return None
    if name == 'resize':
        m = X.rv(st, args[0]); m = X.conv(st, m, P.type_of(args[0]), U64, n)
        sized(X, st, m)
        ln, arr = cur_vec(X, st, b)
        v = X.rv(st, args[1]) if len(args) > 1 else default_value(X, st, t.args[0])
        X.write(st, b, c.mkvec(t, m, lam(c.isort(), lambda j: z3.If(ilt(X, j, ln), sel(arr, j), v)))); return None
    if name == 'assign':
        at = P.type_of(args[0])
        if at.k == 'int':
            m = X.conv(st, X.rv(st, args[0]), at, U64, n); sized(X, st, m)
            X.write(st, b, c.mkvec(t, m, z3.K(c.isort(), X.rv(st, args[1])))); return None
        v = range_copy(X, st, X.rv(st, args[0]), X.rv(st, args[1]), t, n)
        X.write(st, b, v); return None
    if name == 'swap':
        o = X.ev(st, args[0]); v, w = X.val(st, b), X.val(st, o); X.write(st, b, w); X.write(st, o, v); return None
    if name == 'operator=':
        X.write(st, b, X.rv(st, args[0])); return b
    if name == 'insert' and len(args) == 3:
        p, a, e = [X.rv(st, x) for x in args]
        if isinstance(p, It) and isinstance(a, It) and isinstance(e, It):
            src = range_copy(X, st, a, e, a.loc.t, n)
            ln, arr = cur_vec(X, st, b); m, sarr = c.vlen(a.loc.t, src), c.varr(a.loc.t, src)
            X.ob(st, 'insert position is valid', z3.And(ile(X, iv(X, 0), p.idx), ile(X, p.idx, ln)), 'safety', n)
            if not c.bv: st.assume(ln + m <= MAXLEN)
            pi = p.idx
            X.write(st, b, c.mkvec(t, z3.simplify(ln + m), lam(c.isort(), lambda j: z3.If(ilt(X, j, pi), sel(arr, j), z3.If(ilt(X, j, pi + m), sel(sarr, j - pi), sel(arr, j - m))))))
            return It(b, pi)
    if name == 'sort':
        sort_range(X, st, b, iv(X, 0), vlen(X, st, b), None, args[0] if args else None, n); return None
    if name == 'data': return It(b, iv(X, 0))
    raise Unsupported('sequence method ' + name)

# ------------------------------------------------------------------ strings
def str_method(X, st, n, name, b, args):
    v = X.val(st, b); I = z3.IntVal
    if name in ('size', 'length'): return z3.Length(v)
    if name == 'empty': return z3.Length(v) == 0
    if name in ('c_str', 'data'): return v
    if name in ('find',):
        a = X.rv(st, args[0]); pos = X.rv(st, args[1]) if len(args) > 1 else I(0)
        if a.sort() == z3.IntSort(): a = chr_str(a)
        r = z3.IndexOf(v, a, pos)
        return z3.If(r < 0, I((1 << 64) - 1), r)
    if name == 'substr':
        pos = X.rv(st, args[0]) if args else I(0)
        cnt = X.rv(st, args[1]) if len(args) > 1 else I((1 << 64) - 1)
        if not X.quick(st, pos <= z3.Length(v)):
            if X.choose(st, pos > z3.Length(v)): raise CxxThrow(Exc('out_of_range'))
        rest = z3.Length(v) - pos
        return z3.SubString(v, pos, z3.If(cnt < rest, cnt, rest))
    if name == 'erase':
        pos = X.rv(st, args[0]) if args else I(0)
        cnt = X.rv(st, args[1]) if len(args) > 1 else I((1 << 64) - 1)
        if not X.quick(st, pos <= z3.Length(v)):
            if X.choose(st, pos > z3.Length(v)): raise CxxThrow(Exc('out_of_range'))
        rest = z3.Length(v) - pos
        m = z3.If(cnt < rest, cnt, rest)
        X.write(st, b, z3.Concat(z3.SubString(v, I(0), pos), z3.SubString(v, pos + m, rest - m)))
        return b
    if name == 'compare':
        if len(args) == 3:
            pos, ln, o = [X.rv(st, a) for a in args]
            rest = z3.Length(v) - pos
            s = z3.SubString(v, pos, z3.If(ln < rest, ln, rest))
            r = fresh('cmp', z3.IntSort()); st.assume((r == 0) == (s == o)); return r
        o = X.rv(st, args[0]); r = fresh('cmp', z3.IntSort()); st.assume((r == 0) == (v == o)); return r
    if name in ('operator[]', 'at'):
        i = X.rv(st, args[0])
        X.ob(st, 'index within the string', z3.And(0 <= i, i <= z3.Length(v)), 'safety', n)
        return char_at(v, i)
    if name == 'operator=':
        X.write(st, b, X.rv(st, args[0])); return b
    raise Unsupported('string method ' + name)
char_at = define('char_at', [z3.StringSort(), z3.IntSort()], lambda s, i: z3.StrToCode(z3.SubString(s, i, 1)))
def chr_str(a): return z3.StrFromCode(a)

# ------------------------------------------------------------------ maps
def map_parts(X, st, b):
    v = X.read(st, b); c = X.ctx
    return v, mdom(c, b.t, v), mval(c, b.t, v), msize(c, b.t, v)
def mk_map(X, t, d, v, s): return X.ctx.map(t)[1](d, v, s)

def map_index(X, st, b, key, n):
    """operator[]: inserts a value-initialised element when the key is missing"""
    v, d, vals, sz = map_parts(X, st, b)
    has = sel(d, key)
    dv = default_value(X, st, b.t.args[1])
    nv = X.ite(has, sel(vals, key), dv)
    X.write(st, b, mk_map(X, b.t, sto(d, key, z3.BoolVal(True)), sto(vals, key, nv), z3.If(has, sz, sz + 1)))
    trust(X, 'memory allocation succeeds')
    return b.sub(('m', key, b.t), b.t.args[1])

def map_method(X, st, n, name, b, args):
    c = X.ctx; t = b.t
    v, d, vals, sz = map_parts(X, st, b)
    if name == 'size':
        st.assume(sz >= 0, sz <= MAXLEN); return sz
    if name == 'empty': st.assume(sz >= 0); return sz == 0
    if name in ('operator[]',): return map_index(X, st, b, X.rv(st, args[0]), n)
    if name == 'at':
        key = X.rv(st, args[0])
        if not X.choose(st, sel(d, key)): raise CxxThrow(Exc('out_of_range'))
        return b.sub(('m', key, t), t.args[1])
    if name in ('count',): return z3.If(sel(d, X.rv(st, args[0])), z3.IntVal(1), z3.IntVal(0))
    if name == 'contains': return sel(d, X.rv(st, args[0]))
    if name in ('end', 'cend'): return It(b, z3.IntVal(0), 'mapend')
    if name == 'find':
        key = X.rv(st, args[0])
        return It(b, key, 'mapfind', sel(d, key))
    if name in ('begin', 'cbegin'): return map_begin(X, st, b)
    if name == 'clear':
        X.write(st, b, mk_map(X, t, z3.K(d.sort().domain(), z3.BoolVal(False)), vals, z3.IntVal(0))); return None
    if name == 'erase':
        a = X.rv(st, args[0])
        if isinstance(a, It):
            if a.kind == 'mapfind':
                X.ob(st, 'erased iterator can be dereferenced', a.extra, 'safety', n)
                map_remove(X, st, b, a.idx); return Opaque('iter')
            if a.kind == 'mapit': return map_erase_it(X, st, a, n)
            raise Unsupported('erase')
        has = sel(d, a)
        X.write(st, b, mk_map(X, t, sto(d, a, z3.BoolVal(False)), vals, z3.If(has, sz - 1, sz)))
        return z3.If(has, z3.IntVal(1), z3.IntVal(0))
    if name == 'insert':
        e = X.rv(st, args[0]); et = X.prog.type_of(args[0])
        key, val = c.rget(et, e, 'first'), c.rget(et, e, 'second')
        has = sel(d, key)
        X.write(st, b, mk_map(X, t, sto(d, key, z3.BoolVal(True)), sto(vals, key, X.ite(has, sel(vals, key), val)), z3.If(has, sz, sz + 1)))
        return Opaque('insert result', (It(b, key, 'mapfind', z3.BoolVal(True)), z3.Not(has)))
    raise Unsupported('map method ' + name)

def map_remove(X, st, b, key):
    v, d, vals, sz = map_parts(X, st, b)
    st.assume(sz >= 1)
    X.write(st, b, mk_map(X, b.t, sto(d, key, z3.BoolVal(False)), vals, sz - 1))

# iteration over a map: an iterator is a cell (visited set, current key, at-end flag); keys are visited in an unknown order,
# every key exactly once
def itrec(X, t):
    ks = X.ctx.sort(t.args[0])
    return ks
def map_begin(X, st, b):
    v, d, vals, sz = map_parts(X, st, b)
    ks = d.sort().domain()
    st.assume(sz >= 0)
    vis = z3.K(ks, z3.BoolVal(False))
    return map_position(X, st, b, vis)
def map_position(X, st, b, vis):
    """iterator at some unvisited key (or at the end when there is none)"""
    v, d, vals, sz = map_parts(X, st, b)
    ks = d.sort().domain()
    key = fresh('key', ks); more = fresh('more', z3.BoolSort())
    q = fresh('kq', ks)
    st.assume(z3.Implies(more, z3.And(sel(d, key), z3.Not(sel(vis, key)))))
    st.assume(z3.Implies(z3.Not(more), z3.ForAll([q], z3.Implies(sel(d, q), sel(vis, q)))))
    trust(X, 'iterating an associative container visits every key once')
    return It(b, key, 'mapit', (vis, more))
def map_erase_it(X, st, it, n):
    X.ob(st, 'erased iterator can be dereferenced', it.extra[1], 'safety', n)
    map_remove(X, st, it.loc, it.idx)
    return map_position(X, st, it.loc, it.extra[0])
def map_next(X, st, it, n):
    if it.kind == 'mapfind': raise Unsupported('increment of a find result')
    X.ob(st, 'incremented iterator is not at the end', it.extra[1], 'safety', n)
    return map_position(X, st, it.loc, sto(it.extra[0], it.idx, z3.BoolVal(True)))
def it_deref_other(X, st, it, node):
    t = it.loc.t
    if it.kind == 'mapfind':
        X.ob(st, 'iterator can be dereferenced', it.extra, 'safety', node)
    elif it.kind == 'mapit':
        X.ob(st, 'iterator can be dereferenced', it.extra[1], 'safety', node)
    else: raise Unsupported('dereference of ' + it.kind)
    return MapEntry(it.loc, it.idx)
class MapEntry:
    """the pair an associative iterator points at"""
    def __init__(self, loc, key): self.loc, self.key = loc, key
    @property
    def t(self): return T('entry')
    root = ('E',); path = ()
    def member(self, X, name):
        if name == 'first': return self.key
        return self.loc.sub(('m', self.key, self.loc.t), self.loc.t.args[1])

# ------------------------------------------------------------------ operators of library types
def cxop(X, op, a, b):
    if op == '+': return cx(cre(a) + cre(b), cim(a) + cim(b))
    if op == '-': return cx(cre(a) - cre(b), cim(a) - cim(b))
    if op == '*': return cx(cre(a) * cre(b) - cim(a) * cim(b), cre(a) * cim(b) + cim(a) * cre(b))
    if op == '/':
        d = cre(b) * cre(b) + cim(b) * cim(b)
        return cx((cre(a) * cre(b) + cim(a) * cim(b)) / d, (cim(a) * cre(b) - cre(a) * cim(b)) / d)
def cxarith(X, st, op, a, ta, b, tb):
    if ta.k != 'cx' and tb.k == 'cx':
        a = X.conv(st, a, ta, REAL)
        if op == '*': return cx(a * cre(b), a * cim(b))
        return cxop(X, op, cx(a, z3.RealVal(0)), b)
    if tb.k != 'cx':
        b = X.conv(st, b, tb, REAL)
        if op == '*': return cx(cre(a) * b, cim(a) * b)
        if op == '/': return cx(cre(a) / b, cim(a) / b)
        if op in '+-': return cx(cre(a) + b if op == '+' else cre(a) - b, cim(a))
    return cxop(X, op, a, b)

def operator(X, st, n, decl, args):
    P = X.prog; c = X.ctx
    name = decl['name'] if decl else ''
    op = name.replace('operator', '', 1).strip()
    ts = [P.type_of(a) for a in args]
    raw0 = P.raw(args[0]) if args else ''
    if op == '->':
        v = X.rv(st, args[0])
        if isinstance(v, It):
            l = X.it_deref(st, v, n)
            if isinstance(l, MapEntry): return l
            if l.t.k == 'ref': return X.val(st, l)
            return Ptr(l)
        return v
    if op == '*' and len(args) == 1:
        v = X.rv(st, args[0])
        if isinstance(v, It): return X.it_deref(st, v, n)
        if isinstance(v, Ptr): return v.loc
        return X.deref(st, v, ts[0], n)
    if op == '!' and len(args) == 1: return X.rv(st, args[0]) == 0
    if op == '[]':
        if ts[0].k == 'vec':
            l = X.ev(st, args[0])
            if not isinstance(l, Loc): l = X.newcell(st, ts[0], l)
            i = X.rv(st, args[1])
            return vec_elem(X, st, l, toidx(X, st, i, ts[1]), n)
        if ts[0].k == 'map':
            return map_index(X, st, X.ev(st, args[0]), X.rv(st, args[1]), n)
        if ts[0].k == 'str':
            return str_method(X, st, n, 'operator[]', X.ev(st, args[0]), args[1:])
        a = X.rv(st, args[0]); return subscript(X, st, a, X.rv(st, args[1]), n)
    if op == '=':
        l = X.ev(st, args[0])
        if ts[0].k in ('opq',) :
            v = X.ev(st, args[1])
            if ts[0].a in X.reg.opaque: v = X.val(st, v)
            if isinstance(l, Loc) and isinstance(v, z3.ExprRef) and l.root[0] == 'H': X.write(st, l, v); return l
            if isinstance(l, Loc) and isinstance(v, (It, Opaque)): st.cells[l.root] = v
            return l
        v = X.rv(st, args[1])
        if isinstance(v, It) or isinstance(v, Opaque):
            if isinstance(l, Loc) and not l.path: st.cells[l.root] = v
            if st.log is not None: st.log.append((l.root, ()))
            return l
        if isinstance(v, Ptr): raise Unsupported('assignment of a local address')
        v = X.conv(st, v, ts[1], ts[0], n)
        if ts[0].k == 'vec' and isinstance(l, Loc) and not z3.is_expr(v): raise Unsupported('assign')
        X.write(st, l, v); return l
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = X.rv(st, args[0]), X.rv(st, args[1])
        return lib_compare(X, st, op, a, b, ts, n)
    if op in ('++', '--'):
        l = X.ev(st, args[0]); v = X.val(st, l)
        if not isinstance(v, It): raise Unsupported(op)
        if v.kind in ('mapit', 'mapfind'): nv = map_next(X, st, v, n)
        else:
            d = iv(X, 1)
            nv = It(v.loc, z3.simplify(v.idx + d) if op == '++' else z3.simplify(v.idx - d), v.kind, v.extra)
            ln = vlen(X, st, v.loc)
            X.ob(st, 'iterator stays within the sequence', ilt(X, v.idx, ln) if op == '++' else ilt(X, iv(X, 0), v.idx), 'safety', n)
        if not isinstance(l, Loc): return nv
        st.cells[l.root] = nv
        if st.log is not None: st.log.append((l.root, ()))
        return v if len(args) > 1 else l
    if any(t.k == 'cx' for t in ts):
        if op in ('+', '-', '*', '/'):
            a = X.rv(st, args[0])
            if len(args) == 1: return cx(-cre(a), -cim(a)) if op == '-' else a
            b = X.rv(st, args[1])
            return cxarith(X, st, op, a, ts[0], b, ts[1])
        if op in ('+=', '-=', '*=', '/='):
            b = X.rv(st, args[1]); l = X.ev(st, args[0]); a = X.val(st, l)
            X.write(st, l, cxarith(X, st, op[0], a, ts[0], b, ts[1])); return l
    if op in ('+', '-', '+=', '-=') and len(args) == 2:
        a = X.rv(st, args[0])
        if isinstance(a, It):
            b = X.rv(st, args[1])
            if isinstance(b, It):
                if not sameloc(a.loc, b.loc): raise Unsupported('difference of iterators of different containers')
                return z3.simplify(a.idx - b.idx)
            d = toidx(X, st, b, ts[1])
            idx = z3.simplify(a.idx + d) if op[0] == '+' else z3.simplify(a.idx - d)
            ln = vlen(X, st, a.loc)
            X.ob(st, 'iterator stays within the sequence', z3.And(ile(X, iv(X, 0), idx), ile(X, idx, ln)), 'safety', n)
            nv = It(a.loc, idx)
            if len(op) == 2:
                l = X.ev(st, args[0]); st.cells[l.root] = nv
                if st.log is not None: st.log.append((l.root, ()))
                return l
            return nv
        if ts[0].k == 'str' or ts[1].k == 'str':
            b = X.rv(st, args[1]); r = z3.Concat(a, b)
            if op == '+=': X.write(st, X.ev(st, args[0]), r); return X.ev(st, args[0])
            return r
    if op in ('<<', '>>'):
        r = X.reg.stream(X, st, op, args, n)
        if r is not NotImplemented: return r
    if op == '()':
        r = X.reg.functor(X, st, n, decl, args)
        if r is not NotImplemented: return r
        if 'hash' in raw0:
            v = X.rv(st, args[1]); t = ts[1]
            trust(X, 'chromosome hash has no collisions')
            return hash_of(X, t, v, st)
        if 'greater' in raw0 or 'less' in raw0:
            a, b = X.rv(st, args[1]), X.rv(st, args[2]); return a > b if 'greater' in raw0 else a < b
    if op == '*' and '_Bit' in raw0: return X.it_deref(st, X.rv(st, args[0]), n)
    raise Unsupported('operator %s on %s' % (op, [str(t) for t in ts]))

def hash_of(X, t, v, st=None):
    f = z3.Function('hash_%d' % (abs(hash(repr(t))) % 10000), X.ctx.sort(t), z3.IntSort())
    h = f(v)
    if st is not None: st.assume(h >= 0, h <= (1 << 64) - 1)
    return h

def lib_compare(X, st, op, a, b, ts, n):
    if isinstance(a, It) and isinstance(b, It):
        kinds = {a.kind, b.kind}
        if kinds == {'vec'}:
            if not sameloc(a.loc, b.loc): raise Unsupported('comparison of iterators of different containers')
            return X.compare(st, op, a.idx, b.idx, U64, n)
        if 'mapend' in kinds and len(kinds) == 2:
            o = a if b.kind == 'mapend' else b
            at = o.extra if o.kind == 'mapfind' else o.extra[1]
            return at if op == '!=' else z3.Not(at)
        raise Unsupported('iterator comparison')
    if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)): return X.compare(st, op, a, b, ts[0], n)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        r = X.reg.opaque_compare(X, st, op, a, b)
        if r is not NotImplemented: return r
        raise Unsupported('comparison of opaque values')
    t = ts[0]
    if t.k in ('vec', 'rec', 'cx', 'map'):
        if op not in ('==', '!='): raise Unsupported('ordering of ' + t.k)
        e = X.ctx.eq(t, a, b)
        return e if op == '==' else z3.Not(e)
    if t.k == 'str' and op not in ('==', '!='): raise Unsupported('string ordering')
    if a.sort() != b.sort():
        a, b = X.conv(st, a, ts[0], ts[1]), b
    return X.compare(st, op, a, b, t, n)

# ------------------------------------------------------------------ free functions
def rfloor(x):
    if z3.is_rational_value(x):
        import math
        return z3.RealVal(math.floor(x.as_fraction()))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x
    return z3.ToReal(z3.ToInt(x))
def rceil(x):
    if z3.is_rational_value(x):
        import math
        return z3.RealVal(math.ceil(x.as_fraction()))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x
    return -z3.ToReal(z3.ToInt(-x))
def cexp(v):
    e = f_exp(cre(v))
    if z3.is_rational_value(cre(v)) and cre(v).as_fraction() == 0: e = z3.RealVal(1)
    return cx(e * f_cos(cim(v)), e * f_sin(cim(v)))
def rpow(x, y):
    y = z3.simplify(y)
    if z3.is_rational_value(y) and y.as_fraction().denominator == 1 and 0 <= y.as_fraction() <= 8:
        n = int(y.as_fraction()); r = z3.RealVal(1)
        for i in range(n): r = r * x if i else x
        return r
    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_REAL: return f_ipow(x, y.arg(0))
    return f_pow(x, y)

def call(X, st, n, decl, args):
    P = X.prog; c = X.ctx; name = decl['name']
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    ts = [P.type_of(a) for a in args]
    r = X.reg.external(X, st, n, name, decl, args)
    if r is not NotImplemented: return r
    real = lambda i: X.conv(st, X.rv(st, args[i]), ts[i], REAL)
    if name in ('exp', 'sin', 'cos', 'log', 'sqrt', 'asin', 'fabs', 'abs', 'floor', 'ceil', 'pow', 'conj', 'norm', 'real', 'imag', 'polar'):
        if ts[0].k == 'cx':
            v = X.rv(st, args[0])
            if name == 'exp': trust(X, 'exp of a complex number is exp(re)*(cos(im) + i sin(im))'); return cexp(v)
            if name == 'conj': return cx(cre(v), -cim(v))
            if name == 'abs': trust(X, 'real functions exp, sin, cos, sqrt, log, asin, pow are exact'); return f_sqrt(cre(v) * cre(v) + cim(v) * cim(v))
            if name == 'norm': return cre(v) * cre(v) + cim(v) * cim(v)
            if name == 'real': return cre(v)
            if name == 'imag': return cim(v)
        elif name in ('abs',) and ts[0].k == 'int' and P.type_of(n).k == 'int':
            v = X.rv(st, args[0])
            lo, hi = X.irange(ts[0])
            X.ob(st, 'abs does not overflow', v > lo, 'safety', n)
            return z3.If(v >= 0, v, -v)
        else:
            if name in ('abs', 'fabs'): return rabs(real(0))
            if name == 'floor': return rfloor(real(0))
            if name == 'ceil': return rceil(real(0))
            if name == 'polar':
                r_, a_ = real(0), real(1) if len(args) > 1 else z3.RealVal(0)
                return cx(r_ * f_cos(a_), r_ * f_sin(a_))
            trust(X, 'real functions exp, sin, cos, sqrt, log, asin, pow are exact')
            x = real(0)
            if name == 'pow': return rpow(x, real(1))
            if name == 'sqrt': X.ob(st, 'sqrt of a number that is not negative', x >= 0, 'safety', n); return f_sqrt(x)
            if name == 'log': X.ob(st, 'log of a positive number', x > 0, 'safety', n); return f_log(x)
            if name == 'asin': 
                if z3.is_true(z3.simplify(x == 1)): return PI / 2
            return {'exp': f_exp, 'sin': f_sin, 'cos': f_cos, 'asin': f_asin}[name](x)
    if name in ('max', 'min') and len(args) == 2:
        a, b = X.rv(st, args[0]), X.rv(st, args[1])
        lt = X.compare(st, '<', a, b, ts[0], n)
        return X.ite(lt, b, a) if name == 'max' else X.ite(X.compare(st, '<', b, a, ts[0], n), b, a)
    if name == 'swap' and len(args) == 2:
        a, b = X.ev(st, args[0]), X.ev(st, args[1])
        v, w = X.val(st, a), X.val(st, b); X.write(st, a, w); X.write(st, b, v); return None
    if name in ('move', 'forward', 'addressof', 'ref', 'cref'):
        l = X.ev(st, args[0])
        return Ptr(l) if name == 'addressof' else l
    if name in ('make_pair', 'make_tuple'):
        t = P.type_of(n); vs = [X.rv(st, a) for a in args]
        vs = [X.conv(st, v, ta, ft) for v, ta, (_, ft) in zip(vs, ts, t.extra)]
        return c.rec(t)[1](*vs)
    if name in ('dynamic_pointer_cast',):
        v = X.rv(st, args[0]); tt = P.type_of(n)
        if ts[0].k == 'ref' and isinstance(ts[0].a, str) and isinstance(tt.a, str) and P.is_sub(ts[0].a, tt.a): return v
        return X.dyncast(st, v, tt)
    if name == 'static_pointer_cast': return X.rv(st, args[0])
    if name == 'rand':
        return X.reg.rand(X, st, n)
    if name == 'srand': X.rv(st, args[0]); return None
    if name == 'time':
        v = fresh('time', z3.IntSort()); st.assume(v >= 0, v <= (1 << 62)); return v
    if name in ('begin', 'end', 'cbegin', 'cend') and ts[0].k == 'vec':
        return vec_method(X, st, n, name, X.ev(st, args[0]), [])
    if name == 'distance':
        a, b = X.rv(st, args[0]), X.rv(st, args[1])
        if not sameloc(a.loc, b.loc): raise Unsupported('distance')
        return z3.simplify(b.idx - a.idx)
    if name in ('next', 'prev', 'advance'): pass
    if name == 'back_inserter': return It(X.ev(st, args[0]), None, 'backins')
    if name in ('copy', 'fill', 'rotate', 'inner_product', 'lower_bound', 'upper_bound', 'min_element', 'max_element', 'sort', 'accumulate', 'reverse', 'equal', 'swap_ranges', 'copy_n', 'fill_n', 'iter_swap', 'find', 'count', 'iota'):
        return algorithm(X, st, n, name, args, ts)
    if name == '__assert_fail': raise Infeasible()
    fn = X.fn_by_name(st, decl, True)
    if fn is not None: return X.call(st, fn, None, args, n)
    raise Unsupported('call of %s' % name)

def call_value(X, st, n, callee, args):
    if isinstance(callee, FnVal):
        fn = X.fn_of_id(st, callee.decl['id'])
        if fn is not None: return X.call(st, fn, None, args, n)
    r = X.reg.call_value(X, st, n, callee, args)
    if r is not NotImplemented: return r
    raise Unsupported('call through a value')

def sameplace(X, st, a, b):
    """the same location, comparing the indices on the path with the solver where they are written differently"""
    if sameloc(a, b): return True
    if a.root != b.root or len(a.path) != len(b.path): return False
    for p, q in zip(a.path, b.path):
        if samestep(p, q): continue
        if p[0] != 'i' or q[0] != 'i' or not X.quick(st, p[1] == q[1]): return False
    return True

def vrange(X, st, a, b, n):
    if not (isinstance(a, It) and isinstance(b, It) and a.kind == 'vec' and b.kind == 'vec' and sameplace(X, st, a.loc, b.loc)): raise Unsupported('iterator range')
    ln, arr = cur_vec(X, st, a.loc)
    ok = z3.And(ile(X, iv(X, 0), a.idx), ile(X, a.idx, b.idx), ile(X, b.idx, ln))
    X.ob(st, 'iterator range is valid', ok, 'safety', n)
    return a.loc, a.idx, b.idx, ln, arr

def algorithm(X, st, n, name, args, ts):
    c = X.ctx
    vs = [X.rv(st, a) for a in args]
    trust(X, 'std::%s' % name)
    I = c.isort()
    if name == 'copy':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        out = vs[2]
        if out.kind == 'backins':
            oln, oarr = cur_vec(X, st, out.loc); m = z3.simplify(b - a)
            st.assume(oln + m <= MAXLEN)
            X.write(st, out.loc, c.mkvec(out.loc.t, z3.simplify(oln + m), lam(I, lambda j: z3.If(j < oln, sel(oarr, j), sel(arr, z3.simplify(a + j - oln))))))
            return out
        oln, oarr = cur_vec(X, st, out.loc)
        o = out.idx; m = z3.simplify(b - a)
        X.ob(st, 'destination range is large enough', z3.And(ile(X, iv(X, 0), o), ile(X, z3.simplify(o + m), oln)), 'safety', n)
        X.write(st, out.loc, c.mkvec(out.loc.t, oln, lam(I, lambda j: X.ite(z3.And(ile(X, o, j), ilt(X, j, z3.simplify(o + m))), sel(arr, z3.simplify(a + j - o)), sel(oarr, j)))))
        return It(out.loc, z3.simplify(o + m))
    if name == 'fill':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        v = X.conv(st, vs[2], ts[2], loc.t.args[0])
        X.write(st, loc, c.mkvec(loc.t, ln, lam(I, lambda j: X.ite(z3.And(ile(X, a, j), ilt(X, j, b)), v, sel(arr, j))))); return None
    if name == 'rotate':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[2], n)
        m = vs[1].idx
        X.ob(st, 'middle of the rotation lies in the range', z3.And(ile(X, a, m), ile(X, m, b)), 'safety', n)
        k = z3.simplify(m - a); L = z3.simplify(b - a)
        X.write(st, loc, c.mkvec(loc.t, ln, lam(I, lambda j: X.ite(z3.And(a <= j, j < b), X.ite(j - a < L - k, sel(arr, z3.simplify(j + k)), sel(arr, z3.simplify(j + k - L))), sel(arr, j)))))
        return It(loc, z3.simplify(a + b - m))
    if name == 'reverse':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        X.write(st, loc, c.mkvec(loc.t, ln, lam(I, lambda j: X.ite(z3.And(a <= j, j < b), sel(arr, z3.simplify(a + b - 1 - j)), sel(arr, j))))); return None
    if name == 'inner_product':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        o = vs[2]; oln, oarr = cur_vec(X, st, o.loc)
        X.ob(st, 'second range is long enough', z3.And(0 <= o.idx, o.idx + (b - a) <= oln), 'safety', n)
        init = X.conv(st, vs[3], ts[3], REAL)
        s = Sum(lambda j: sel(arr, z3.simplify(a + j)) * sel(oarr, z3.simplify(o.idx + j)), 0, z3.simplify(b - a))
        z = z3.simplify(init)
        return s if z3.is_rational_value(z) and z.as_fraction() == 0 else init + s
    if name == 'accumulate':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        if len(vs) > 3: raise Unsupported('accumulate with an operation')
        et = loc.t.args[0]
        if et.k == 'real':
            init = X.conv(st, vs[2], ts[2], REAL)
            if ts[2].k != 'real': raise Unsupported('accumulate into another type')
            s = Sum(lambda j: sel(arr, z3.simplify(a + j)), 0, z3.simplify(b - a))
            z = z3.simplify(init)
            return s if z3.is_rational_value(z) and z.as_fraction() == 0 else init + s
        raise Unsupported('accumulate')
    if name in ('lower_bound', 'upper_bound'):
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        if len(vs) > 3: raise Unsupported('bound with a comparison')
        v = vs[2]
        before = (lambda i: sel(arr, i) < v) if name == 'lower_bound' else (lambda i: z3.Not(v < sel(arr, i)))
        i, j = fresh('i', I), fresh('j', I)
        X.ob(st, 'searched range is partitioned', z3.ForAll([i, j], z3.Implies(z3.And(a <= i, i < j, j < b), z3.Implies(before(j), before(i)))), 'safety', n)
        r = fresh('bound', I)
        st.assume(a <= r, r <= b, z3.Implies(r > a, before(r - 1)), z3.Implies(r < b, z3.Not(before(r))))
        st.assume(qrange(X, a, r, before), qrange(X, r, b, lambda q: z3.Not(before(q))))
        return It(loc, r)
    if name in ('min_element', 'max_element'):
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        if len(vs) > 2: raise Unsupported('element search with a comparison')
        r = fresh(name, I)
        le = (lambda x, y: x <= y) if name == 'min_element' else (lambda x, y: x >= y)
        lt = (lambda x, y: x < y) if name == 'min_element' else (lambda x, y: x > y)
        st.assume(a <= r, r <= b, z3.Implies(a < b, r < b), z3.Implies(a == b, r == b))
        st.assume(z3.Implies(a < b, z3.And(qrange(X, a, b, lambda q: le(sel(arr, r), sel(arr, q))), qrange(X, a, r, lambda q: lt(sel(arr, r), sel(arr, q))))))
        return It(loc, r)
    if name == 'sort':
        a, b = vs[0], vs[1]
        loc, lo, hi, ln, arr = vrange(X, st, a, b, n)
        sort_range(X, st, loc, lo, hi, vs[2] if len(vs) > 2 else None, args[2] if len(args) > 2 else None, n)
        return None
    if name == 'equal':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        o = vs[2]; oln, oarr = cur_vec(X, st, o.loc)
        X.ob(st, 'second range is long enough', z3.And(0 <= o.idx, o.idx + (b - a) <= oln), 'safety', n)
        return qrange(X, z3.IntVal(0), b - a, lambda j: X.ctx.eq(loc.t.args[0], sel(arr, a + j), sel(oarr, o.idx + j)))
    if name == 'swap_ranges':
        loc, a, b, ln, arr = vrange(X, st, vs[0], vs[1], n)
        o = vs[2]
        if sameloc(o.loc, loc): raise Unsupported('swap_ranges within one container')
        oln, oarr = cur_vec(X, st, o.loc); oi = o.idx; m = z3.simplify(b - a)
        X.ob(st, 'second range is long enough', z3.And(ile(X, iv(X, 0), oi), ile(X, z3.simplify(oi + m), oln)), 'safety', n)
        X.write(st, loc, c.mkvec(loc.t, ln, lam(I, lambda j: X.ite(z3.And(ile(X, a, j), ilt(X, j, b)), sel(oarr, z3.simplify(oi + j - a)), sel(arr, j)))))
        X.write(st, o.loc, c.mkvec(o.loc.t, oln, lam(I, lambda j: X.ite(z3.And(ile(X, oi, j), ilt(X, j, z3.simplify(oi + m))), sel(arr, z3.simplify(a + j - oi)), sel(oarr, j)))))
        return It(o.loc, z3.simplify(oi + m))
    raise Unsupported('std::' + name)

def sort_range(X, st, loc, lo, hi, comp, compnode, n):
    """sorted permutation: new[i] = old[p(i)] with p a bijection of the range"""
    c = X.ctx; I = c.isort()
    trust(X, 'std::sort returns a sorted permutation')
    ln, arr = cur_vec(X, st, loc)
    et = loc.t.args[0]
    new = fresh('sorted', arr.sort())
    p = z3.Function('perm!%d' % next(_ctr()), I, I); q = z3.Function('pinv!%d' % next(_ctr()), I, I)
    i, j = fresh('i', I), fresh('j', I)
    inr = lambda x: z3.And(lo <= x, x < hi)
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i, sel(new, i) == sel(arr, p(i)))), patterns=[p(i)]) if False else
              z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i, z3.Select(new, i) == sel(arr, p(i))))))
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q(i)), p(q(i)) == i))))
    st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), z3.Select(new, i) == sel(arr, i))))
    before = X.reg.sort_order(X, st, et, comp, compnode, n)
    if before is not None:
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(before(z3.Select(new, j), z3.Select(new, i))))))
    X.write(st, loc, c.mkvec(loc.t, ln, new))

def _ctr():
    from . import terms
    return terms._ctr
