from .base import *
FILES = ['/verif/drivers/cache.cpp']
CA = 'k52::common::Cache::'
class View:
    """the cache as a partial map: has(k), value(k), usage(k)"""
    def __init__(s, c, m, t):
        s.ctx, s.m, s.t = c.ctx, m, t; s.st = t.args[1]
        s.ks = c.ctx.sort(t.args[0])
    def dom(s, k): return sel(mdom(s.ctx, s.t, s.m), k)
    def rec(s, k): return sel(mval(s.ctx, s.t, s.m), k)
    def has(s, k): return z3.And(s.dom(k), s.ctx.rget(s.st, s.rec(k), 'has_value_'))
    def value(s, k): return s.ctx.rget(s.st, s.rec(k), 'value_')
    def usage(s, k): return s.ctx.rget(s.st, s.rec(k), 'number_of_usage_')
    def size(s): return msize(s.ctx, s.t, s.m)
def pre(c): return View(c, c.f('cache_map_'), c.ft('cache_map_'))
def post(c): return View(c, c.f_('cache_map_'), c.ft('cache_map_'))
def anyk(v, f): 
    k = fresh('k', v.ks); return z3.ForAll([k], f(k))
def usage_ok(c):
    v = pre(c); return [('fewer than 2^42 entries', z3.And(v.size() >= 0, v.size() < 2**42)), ('no entry has been read 2^31-2 times', anyk(v, lambda k: z3.Implies(v.dom(k), z3.And(v.usage(k) >= 0, v.usage(k) < 2147483646))))]
def same_has(c):
    a, b = pre(c), post(c)
    return anyk(a, lambda k: z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), a.value(k) == b.value(k))))
def exceeded(c, size):
    """the documented limit: number of entries times the size of a key and of an element, in megabytes, is above the limit"""
    K, V = c.obj.t.a[1]
    unit = c.X.sizeof(c.pre, K) + c.X.sizeof(c.pre, 'std::pair<const %s, k52::common::StoredValue<%s>>' % (K, V))
    return z3.ToReal(unit * size) / 1048576 > c.f('data_limit_in_megabytes_')
def kept(c, k):
    """an entry that survives is unchanged"""
    a, b = pre(c), post(c)
    return z3.And(a.dom(k), a.rec(k) == b.rec(k))
def evict(c, but=None, more=0):
    a, b = pre(c), post(c)
    ex = exceeded(c, a.size())
    ne = (lambda k: z3.BoolVal(True)) if but is None else but
    return [('surviving entries are unchanged', anyk(a, lambda k: z3.Implies(z3.And(ne(k), b.dom(k)), kept(c, k)))),
            ('nothing is evicted while the limit is not exceeded', z3.Implies(z3.Not(ex), anyk(a, lambda k: z3.Implies(z3.And(ne(k), a.dom(k)), b.dom(k))))),
            ('entries that have been read are never evicted', anyk(a, lambda k: z3.Implies(z3.And(ne(k), a.dom(k), a.usage(k) >= 1), b.dom(k))))] + \
        ([] if more is None else [('the number of entries', z3.And(b.size() >= 0, b.size() <= a.size() + more))])
def fresh_record(c, v, k, value):
    vt = v.st.extra[1][1] if v.st.extra else None
    return z3.And(v.dom(k), v.ctx.rget(v.st, v.rec(k), 'has_value_'), v.value(k) == value, v.usage(k) == 0)
def add_values_inv(info):
    """the batch is a prefix stored, everything else as after the eviction"""
    if not info.qual.endswith('AddValues'): return []
    X = info.X
    def parts(v):
        o = v.st.this; loc = X.field(v.st, o, 'cache_map_')
        return loc, X.read(v.st, loc)
    def inv(which):
        def f(v):
            pname = v.fn.params[0]['name']; vt = X.prog.type_of(v.fn.params[0]); et = vt.args[0]
            vec = v.var(pname)
            loc, m = parts(v); _, m0 = parts(v.pre); t = loc.t; stt = t.args[1]; ctx = X.ctx
            key = lambda i: ctx.rget(et, ctx.vget(vt, vec, i), 'key'); val = lambda i: ctx.rget(et, ctx.vget(vt, vec, i), 'value')
            D, V = (lambda x, k: sel(mdom(ctx, t, x), k)), (lambda x, k: sel(mval(ctx, t, x), k))
            q = fresh('q', ctx.sort(t.args[0]))
            if which == 0:
                return z3.ForAll([q], z3.Implies(forall_range(I(0), v.k, lambda i: key(i) != q), z3.And(D(m, q) == D(m0, q), V(m, q) == V(m0, q))))
            def rec(k, x): return z3.And(D(m, k), ctx.rget(stt, V(m, k), 'has_value_'), ctx.rget(stt, V(m, k), 'value_') == x, ctx.rget(stt, V(m, k), 'number_of_usage_') == 0)
            if which == 2: return forall_range(I(0), v.k, lambda i: z3.And(D(m, key(i)), ctx.rget(stt, V(m, key(i)), 'has_value_')))
            if which == 3: return z3.ForAll([q], z3.Implies(D(m, q), z3.Or(z3.And(D(m0, q), V(m, q) == V(m0, q)), exists_range(I(0), v.k, lambda j: z3.And(key(j) == q, rec(q, val(j)))))))
            return forall_range(I(0), v.k, lambda i: z3.Implies(forall_range(i + 1, v.k, lambda j: key(j) != key(i)), rec(key(i), val(i))))
        return f
    return [('keys outside the stored prefix are untouched', inv(0)), ('the stored prefix is cached', inv(1)), ('every key of the prefix is cached', inv(2)), ('what is there is old or from the prefix', inv(3))]
def empty(c):
    key = c.fn.cls.key; l = c.X.field(c.post, c.objloc(c.result, key), 'cache_map_')
    v = View(c, c.X.read(c.post, l), l.t)
    return z3.And(anyk(v, lambda k: z3.Not(v.dom(k))), v.size() == 0, c.of_(c.result, key, 'data_limit_in_megabytes_') == c.a(0))
def build(reg, P): add_cache(reg)
def add_cache(reg, part=False):
    before = list(reg.contracts)
    mp = lambda c: [c.floc('cache_map_')]
    reg.add(Contract(CA + 'IsCached', modifies=mp, ensures=lambda c: [('tells whether a value is stored', c.result == pre(c).has(c.a(0))), ('stored values are the same', same_has(c)),
        ('at most one entry more, never read', z3.And(post(c).size() >= pre(c).size(), post(c).size() <= pre(c).size() + 1, anyk(pre(c), lambda k: z3.Implies(z3.And(post(c).dom(k), z3.Not(pre(c).dom(k))), post(c).usage(k) == 0)))),
        ('nothing stored is marked read', anyk(pre(c), lambda k: z3.Implies(pre(c).dom(k), z3.And(post(c).dom(k), post(c).usage(k) == pre(c).usage(k)))))]))
    reg.add(Contract(CA + 'GetCachedValue', requires=usage_ok, modifies=mp, on_throw='modifies', throws=[('runtime_error', lambda c: z3.Not(pre(c).has(c.a(0))))],
        ensures=lambda c: [('returns the stored value', c.result == pre(c).value(c.a(0))), ('stored values are the same', same_has(c)),
            ('no entry more', post(c).size() == pre(c).size()), ('other entries are the same', anyk(pre(c), lambda k: z3.Implies(z3.And(post(c).dom(k), k != c.a(0)), kept(c, k)))),
            ('marks the entry as read', post(c).usage(c.a(0)) == pre(c).usage(c.a(0)) + 1),
            ('marks nothing else', anyk(pre(c), lambda k: z3.Implies(z3.And(pre(c).has(k), k != c.a(0)), post(c).usage(k) == pre(c).usage(k))))],
        throw_ensures=lambda c: [('stored values are the same', same_has(c))]))
    reg.add(Contract(CA + 'IsSizeLimitExceeded', requires=lambda c: usage_ok(c)[:1], internal=True, returns=lambda c: exceeded(c, pre(c).size())))
    reg.add(Contract(CA + 'ClearUnusedCacheValues', internal=True, modifies=mp, ensures=lambda c: [
        ('surviving entries are unchanged', anyk(pre(c), lambda k: z3.Implies(post(c).dom(k), kept(c, k)))),
        ('the number of entries does not grow', z3.And(post(c).size() >= 0, post(c).size() <= pre(c).size())),
        ('keeps exactly the entries used often enough', anyk(pre(c), lambda k: post(c).dom(k) == z3.And(pre(c).dom(k), pre(c).usage(k) >= c.a(0))))]))
    reg.add(Contract(CA + 'ClearCacheUpToLimit', internal=True, requires=usage_ok, modifies=mp, on_throw='modifies', may_throw=['runtime_error'], ensures=lambda c: evict(c) + [('the limit is not exceeded afterwards', z3.Not(exceeded(c, post(c).size()))),
            ('otherwise the entries never read are evicted', z3.Implies(exceeded(c, pre(c).size()), anyk(pre(c), lambda k: post(c).dom(k) == z3.And(pre(c).dom(k), pre(c).usage(k) >= 1)))),
            ('a container within its limit is left alone', z3.Implies(z3.Not(exceeded(c, pre(c).size())), post(c).m == pre(c).m))],
        throw_ensures=lambda c: evict(c) + [('throws only when the limit was and is exceeded', z3.And(exceeded(c, pre(c).size()), exceeded(c, post(c).size())))]))
    def stored_size(c):
        a, b = pre(c), post(c); k = c.a(0)
        return z3.If(z3.And(a.dom(k), z3.Or(z3.Not(exceeded(c, a.size())), a.usage(k) >= 1)), b.size(), b.size() - 1)
    reg.add(Contract(CA + 'AddValue', requires=usage_ok, modifies=mp, on_throw='modifies', may_throw=['runtime_error'],
        ensures=lambda c: [('the value is stored', fresh_record(c, post(c), c.a(0), c.a(1))), ('stored only within the limit', z3.Not(exceeded(c, stored_size(c))))] + evict(c, lambda k: k != c.a(0), 1),
        throw_ensures=lambda c: evict(c) + [('throws only when the limit was and is exceeded', z3.And(exceeded(c, pre(c).size()), exceeded(c, post(c).size())))]))
    def batch(c):
        v = c.a(0); vt = c.t(0); et = vt.args[0]; n = c.len(v, vt)
        key = lambda i: c.ctx.rget(et, c.at(v, i, vt), 'key'); val = lambda i: c.ctx.rget(et, c.at(v, i, vt), 'value')
        return n, key, val
    def in_batch(c):
        n, key, val = batch(c)
        return lambda k: exists_range(I(0), n, lambda i: key(i) == k)
    def batch_post(c):
        n, key, val = batch(c); b = post(c)
        return [('every record of the batch is stored, the last one of a repeated key', forall_range(I(0), n, lambda i: z3.Implies(forall_range(i + 1, n, lambda j: key(j) != key(i)), fresh_record(c, b, key(i), val(i))))),
            ('every key of the batch is cached', forall_range(I(0), n, lambda i: b.has(key(i)))), ('everything there is an old entry or one of the batch', anyk(b, lambda k: z3.Implies(b.dom(k), z3.Or(kept(c, k), exists_range(I(0), n, lambda j: z3.And(key(j) == k, fresh_record(c, b, k, val(j))))))))] + evict(c, lambda k: forall_range(I(0), n, lambda i: key(i) != k), None)
    reg.add(Contract(CA + 'AddValues', requires=usage_ok, modifies=mp, on_throw='modifies', may_throw=['runtime_error'], ensures=batch_post, loops=[add_values_inv],
        throw_ensures=lambda c: evict(c) + [('throws only when the limit was and is exceeded', z3.And(exceeded(c, pre(c).size()), exceeded(c, post(c).size())))]))
    reg.add(Contract(CA + 'Create', allocates=True, ensures=lambda c: [('no cache for a limit that is not positive', z3.Implies(c.a(0) <= 0, c.result == 0)),
        ('a cache for a positive limit', z3.Implies(c.a(0) > 0, z3.And(c.result != 0, c.result > c.pre.alloc))), ('the new cache is empty and keeps the limit', z3.Implies(c.a(0) > 0, empty(c)))]))
    if part:        # a user of the cache that instantiates some of its members
        for con in reg.contracts:
            if con not in before: con.internal = True
