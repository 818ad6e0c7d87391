from .base import *
from .C01 import add_cache, View, anyk, usage_ok
from .C12 import add_objective, add_pool, value, fn, content
from .C24 import add_clone
from .C06 import Ind, N, N_
DIR = 'src/optimization/'
FILES = [DIR + f + '.cpp' for f in ('objective_function_counter', 'count_objective_function_task', 'objective_function_task_result')]
O = 'k52::optimization::'; CT = 'CountObjectiveFunctionTask'; RT = 'ObjectiveFunctionTaskResult'; OC = 'ObjectiveFunctionCounter'; IP = 'IParameters'
ASSUMPTIONS = ['an objective function is a function of the contents of the parameters', 'the parameters of an individual are the decoded chromosome (C05), individuals of one run decode alike', 'chromosomes are equal as keys exactly when they have the same length and genes',
    'fewer than 2^29 individuals, cached entries read fewer than 2^30 times, and fewer than 2^31 evaluations and hits per counter']
VI = VEC(REF(N)); VP = VEC(REF(IP)); VT = VEC(REF('ITask')); VR_ = VEC(REF('ITaskResult')); VCT = VEC(REF(CT)); VRT = VEC(REF(RT)); VN = VEC(I32)
BA = z3.ArraySort(z3.IntSort(), z3.BoolSort())
decoded = z3.Function('decoded', z3.IntSort(), BA, z3.IntSort())
def of_key(c, k): return decoded(c.len(k, VB), c.arr(k, VB))
def cache_of(c, post=False):
    """the cache of the counter: its reference and contents"""
    st = c.post if post else c.pre; X = c.X
    l = X.field(st, c.obj, 'cache_'); r = X.read(st, l); m = X.field(st, Loc(('O', r), (), T('rec', l.t.a)), 'cache_map_')
    return r, View(c, X.read(st, m), m.t)
def touched(c): r = c.f('cache_'); return c.X.field(c.pre, c.objloc(r, c.ft('cache_').a), 'cache_map_')
def consistent(c, f, post=False):
    r, v = cache_of(c, post)
    return z3.Implies(r != 0, anyk(v, lambda k: z3.Implies(v.has(k), z3.And(v.value(k) == value(f, of_key(c, k)), v.value(k) >= 0))))
def room(c, n, u, post=False):
    r, v = cache_of(c, post); return z3.Implies(r != 0, z3.And(v.size() >= 0, v.size() <= n, anyk(v, lambda k: z3.Implies(v.dom(k), z3.And(v.usage(k) >= 0, v.usage(k) <= u)))))
def same_values(c):
    r, a = cache_of(c); _, b = cache_of(c, True); return z3.Implies(r != 0, anyk(a, lambda k: z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), a.value(k) == b.value(k)))))
def chrom(c, r): return c.of(r, N, 'chromosome_')
def hit(c, r):
    q, v = cache_of(c); return z3.And(q != 0, v.has(chrom(c, r)))
def own_value(c, f, r): return value(f, of_key(c, chrom(c, r)))
def fit(c, r): i = Ind(c, True, r); return i.has, i.fitness
def same_fitness(c, r): a, b = Ind(c, False, r), Ind(c, True, r); return z3.And(a.has == b.has, a.fitness == b.fitness)
def allr(f): r = fresh('r', z3.IntSort()); return z3.ForAll([r], f(r))
SMALL = 2**29
def build(reg, P):
    add_cache(reg, True); add_clone(reg); add_objective(reg); add_pool(reg)
    # tasks
    T_ = O + CT + '::'; R_ = O + RT + '::'; C_ = O + OC + '::'
    tf = lambda c, r, f, post=False: (c.of_ if post else c.of)(r, CT, f)
    tfun = lambda c, r, post=False: z3.If(tf(c, r, 'was_created_', post), tf(c, r, 'function_to_optimize_', post), tf(c, r, 'received_function_', post))
    tpar = lambda c, r, post=False: z3.If(tf(c, r, 'was_created_', post), tf(c, r, 'parameters_', post), tf(c, r, 'received_parameters_', post))
    res = lambda c, r, post=True: (c.of_ if post else c.of)(r, RT, 'objective_function_value_')
    outcome = lambda c, r: value(fn(c, tfun(c, r)), content(c, tpar(c, r)))
    reg.add(Contract(T_ + CT, nparams=2, modifies=lambda c: [c.obj], ensures=lambda c: [('of the objective given', tfun(c, c.this, True) == c.a(1)), ('and the parameters given', tpar(c, c.this, True) == c.a(0))]))
    reg.add(Contract(T_ + CT, nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('nothing to evaluate', z3.And(tfun(c, c.this, True) == 0, tpar(c, c.this, True) == 0))]))
    reg.add(Contract(T_ + 'get_objective_function', internal=True, returns=lambda c: tfun(c, c.this)))
    reg.add(Contract(T_ + 'get_parameters', internal=True, returns=lambda c: tpar(c, c.this)))
    given = lambda c: [('an objective and parameters', z3.And(tfun(c, c.this) > 0, tpar(c, c.this) > 0))]
    reg.add(Contract(T_ + 'Perform', allocates=True, requires=given, ensures=lambda c: [('a new result', c.result > c.pre.alloc), ('the value of the objective at the parameters', res(c, c.result) == outcome(c, c.this))]))
    reg.add(Contract(R_ + 'get_objective_function_value', returns=lambda c: c.f('objective_function_value_')))
    reg.add(Contract(R_ + 'set_objective_function_value', modifies=lambda c: [c.floc('objective_function_value_')], ensures=lambda c: [('keeps the value', c.f_('objective_function_value_') == c.a(0))]))
    def ready(c, vt): t = lambda i: c.at(c.a(0), i, vt); return [('every task has an objective and parameters', forall_range(I(0), c.len(c.a(0), vt), lambda i: z3.And(t(i) > 0, c.X.isinst(t(i), CT), tfun(c, t(i)) > 0, tpar(c, t(i)) > 0)))]
    def done(c, vt, rt):
        n = c.len(c.a(0), vt); t = lambda i: c.at(c.a(0), i, vt); r = lambda i: c.at(c.result, i, rt)
        return [('a result for every task', c.len(c.result, rt) == n), ('its own', forall_range(I(0), n, lambda i: z3.And(r(i) > c.pre.alloc, r(i) <= c.post.alloc, c.X.isinst(r(i), RT), res(c, r(i)) == outcome(c, t(i)))))]
    reg.add(Contract('k52::parallel::IWorkerPool::DoTasks', assumed=True, note='result i is the one task i produces (C13), which is what the contract of CountObjectiveFunctionTask::Perform verified here says', allocates=True, requires=lambda c: ready(c, VT), ensures=lambda c: done(c, VT, VR_)))
    params = lambda c, i: c.at(c.a(0), i, VP); np = lambda c: c.len(c.a(0), VP)
    pgiven = lambda c: [('parameters given', forall_range(I(0), np(c), lambda i: params(c, i) > 0))]
    def made(c, k, v, vt=VCT): t = lambda i: c.at(v, i, vt); return [('new tasks', forall_range(I(0), k, lambda i: z3.And(t(i) > c.pre.alloc, t(i) <= c.post.alloc, c.X.isinst(t(i), CT)))), ('of the objective and the parameters in order', forall_range(I(0), k, lambda i: z3.And(tfun(c, t(i), True) == c.ref(1), tpar(c, t(i), True) == params(c, i))))]
    def making(info): return [x for t in (VCT, VT) for m in range(2) for x in in_loop_vec(info, t, None, ('tasks made so far %d' % m, lambda c, k, v, m=m, t=t: made(c, k, v, t)[m][1]))]
    reg.add(Contract(C_ + 'CreateRawTasks', internal=True, allocates=True, requires=pgiven, loops=[making], ensures=lambda c: [('a task for every parameter object', c.len(c.result, VCT) == np(c))] + made(c, np(c), c.result)))
    reg.add(Contract(C_ + 'CreateRawTaskPointersVector', internal=True, ensures=lambda c: [('the same objects in order', z3.And(c.len(c.result, VT) == c.len(c.a(0), VCT), forall_range(I(0), c.len(c.a(0), VCT), lambda i: c.at(c.result, i, VT) == c.at(c.a(0), i, VCT))))]))
    counts = lambda c: c.f('objective_function_counts_'); counts_ = lambda c: c.f_('objective_function_counts_')
    def few(c, n): return [('a pool', c.f('fitness_worker_pool_') > 0), ('fewer than 2^31 evaluations', z3.And(counts(c) >= 0, counts(c) < 2**30, n < SMALL))]
    reg.add(Contract(C_ + 'Count', internal=True, allocates=True, requires=lambda c: ready(c, VCT) + few(c, c.len(c.a(0), VCT)), modifies=lambda c: [c.floc('objective_function_counts_')], ensures=lambda c: done(c, VCT, VRT) + [('the evaluations are counted', counts_(c) == counts(c) + c.len(c.a(0), VCT))]))
    pv = lambda c, i: value(fn(c, c.ref(1)), content(c, params(c, i)))
    reg.add(Contract(C_ + 'CountObjectiveFunctionValues', allocates=True, requires=lambda c: pgiven(c) + few(c, np(c)), modifies=lambda c: [c.floc('objective_function_counts_')], loops=[making],
        ensures=lambda c: [('a value for every parameter object', c.len(c.result) == np(c)), ('its own', forall_range(I(0), np(c), lambda i: c.at(c.result, i) == pv(c, i))), ('the evaluations are counted', counts_(c) == counts(c) + np(c))]))
    # individuals
    ind = lambda c: Ind(c)
    reg.add(Contract(N_ + 'GetChromosome', assumed=True, note='verified in C05', requires=lambda c: [('initialised', ind(c).ready)], returns=lambda c: ind(c).chrom))
    reg.add(Contract(N_ + 'GetParametersAccordingToChromosome', assumed=True, note='verified in C05', requires=lambda c: [('initialised', ind(c).ready)], returns=lambda c: ind(c).params))
    reg.add(Contract(N_ + 'get_fitness', assumed=True, note='verified in C05', throws=[('logic_error', lambda c: z3.Not(ind(c).has))], returns=lambda c: ind(c).fitness))
    reg.add(Contract(N_ + 'set_fitness', assumed=True, note='verified in C05', throws=[('logic_error', lambda c: c.a(0) < 0)], modifies=lambda c: [c.floc('fitness_'), c.floc('has_fitness_')], ensures=lambda c: [('the fitness given', z3.And(Ind(c, True).has, Ind(c, True).fitness == c.a(0)))]))
    def pop(c, i, p): return c.at(c.a(p), i, VI)
    def population(c, p):
        n = c.len(c.a(p), VI)
        return [('fewer than 2^29 individuals', n < SMALL), ('initialised individuals', forall_range(I(0), n, lambda i: z3.And(pop(c, i, p) > 0, pop(c, i, p) <= c.pre.alloc, Ind(c, False, pop(c, i, p)).ready, Ind(c, False, pop(c, i, p)).params > 0, Ind(c, False, pop(c, i, p)).params <= c.pre.alloc))),
            ('their parameters are their decoded chromosomes', forall_range(I(0), n, lambda i: content(c, Ind(c, False, pop(c, i, p)).params) == of_key(c, chrom(c, pop(c, i, p)))))]
    hits = lambda c: c.f('cache_hits_'); hits_ = lambda c: c.f_('cache_hits_')
    countable = lambda c: [('fewer than 2^31 hits', z3.And(hits(c) >= 0, hits(c) < 2**30))]
    def missed(c, p, k): return Sum(lambda q: z3.If(hit(c, pop(c, q, p)), I(0), I(1)), I(0), k)
    def sorted_out(c, k):
        """the first k individuals have been looked up"""
        ps, ix = c.a_(1), c.a_(2); m = c.len(ix, VN); at = lambda j: c.at(ix, j, VN); who = lambda i: pop(c, i, 0)
        return [('as many parameters as indexes', c.len(ps, VP) == m), ('one for every individual not cached', m == missed(c, 0, k)), ('not more than there are', z3.And(m >= 0, m <= k)),
            ('indexes of individuals not cached', forall_range(I(0), m, lambda j: z3.And(0 <= at(j), at(j) < k, z3.Not(hit(c, who(at(j))))))), ('with their parameters', forall_range(I(0), m, lambda j: c.at(ps, j, VP) == Ind(c, False, who(at(j))).params)),
            ('every individual not cached is there', forall_range(I(0), k, lambda i: z3.Implies(z3.Not(hit(c, who(i))), z3.And(0 <= missed(c, 0, i), missed(c, 0, i) < m, at(missed(c, 0, i)) == i)))),
            ('cached individuals have the cached value', forall_range(I(0), k, lambda i: z3.Implies(hit(c, who(i)), z3.And(fit(c, who(i))[0], fit(c, who(i))[1] == cache_of(c)[1].value(chrom(c, who(i))))))),
            ('other individuals are as before', allr(lambda r: z3.Implies(z3.Not(z3.And(hit(c, r), exists_range(I(0), k, lambda i: who(i) == r))), same_fitness(c, r)))),
            ('hits are counted', hits_(c) == hits(c) + k - m), ('cached values are the same', same_values(c))]
    def used(c, k, u0=2**30): return [('room in the cache', room(c, 2**41 + k, u0 + k, True)), ('what was found is marked as used', (lambda v: z3.Implies(cache_of(c)[0] != 0, forall_range(I(0), k, lambda i: z3.Implies(hit(c, pop(c, i, 0)), z3.And(v.dom(chrom(c, pop(c, i, 0))), v.usage(chrom(c, pop(c, i, 0))) >= 1)))))(cache_of(c, True)[1]))]
    def lookup(info): return in_loop(info, *[('looked up so far %d' % j, lambda c, k, j=j: (sorted_out(c, k) + used(c, k))[j][1]) for j in range(12)])
    cache_ok = lambda c: [('room in the cache', room(c, 2**41, 2**30)), ('cached values are not negative', (lambda r, v: z3.Implies(r != 0, anyk(v, lambda k: z3.Implies(v.has(k), v.value(k) >= 0))))(*cache_of(c)))]
    n0 = lambda c: c.len(c.a(0), VI)
    fitness_changes = [('H', N, 'fitness_'), ('H', N, 'has_fitness_')]
    reg.add(Contract(C_ + 'ProcessPopulation', internal=True, requires=lambda c: population(c, 0) + countable(c) + cache_ok(c) + [('lists to fill', z3.And(c.len(c.a(1), VP) == 0, c.len(c.a(2), VN) == 0))], loops=[lookup],
        cand_time=30, modifies=lambda c: [c.arg(1).loc, c.arg(2).loc, c.floc('cache_hits_'), touched(c)] + fitness_changes, ensures=lambda c: sorted_out(c, n0(c)) + used(c, n0(c))))
    # new values in the cache
    pop1 = lambda c, j: pop(c, c.at(c.a(1), j, VN), 0); nidx = lambda c: c.len(c.a(1), VN)
    rated = lambda c, r: z3.And(Ind(c, False, r).ready, Ind(c, False, r).has)
    def kept(c, k): _, a = cache_of(c); _, b = cache_of(c, True); return z3.And(a.dom(k), a.rec(k) == b.rec(k))
    def learnt(c):
        _, a = cache_of(c); _, b = cache_of(c, True)
        return [('every chromosome listed is cached', forall_range(I(0), nidx(c), lambda j: b.has(chrom(c, pop1(c, j))))),
            ('what is cached was cached or is the fitness of one listed', anyk(b, lambda k: z3.Implies(b.dom(k), z3.Or(kept(c, k), exists_range(I(0), nidx(c), lambda j: z3.And(chrom(c, pop1(c, j)) == k, b.has(k), b.value(k) == Ind(c, False, pop1(c, j)).fitness, b.usage(k) == 0)))))),
            ('what was used stays', anyk(b, lambda k: z3.Implies(z3.And(a.dom(k), a.usage(k) >= 1), z3.And(b.dom(k), z3.Implies(a.has(k), b.has(k))))))]
    reg.add(Contract(C_ + 'AddNewCacheValues', internal=True, requires=lambda c: [('a cache', c.f('cache_') > 0), ('room in the cache', room(c, 2**41 + 2**29, 2**30 + 2**29)), ('fewer than 2^29 individuals', nidx(c) < SMALL), ('indexes of individuals with a fitness', forall_range(I(0), nidx(c), lambda j: z3.And(0 <= c.at(c.a(1), j, VN), c.at(c.a(1), j, VN) < n0(c), pop1(c, j) > 0, pop1(c, j) <= c.pre.alloc, rated(c, pop1(c, j)))))],
        modifies=lambda c: [touched(c)], may_throw=['runtime_error'], on_throw='modifies', ensures=learnt, name_arrays=True))
    # a population
    n1 = lambda c: c.len(c.a(1), VI); who = lambda c, i: pop(c, i, 1); F = lambda c: fn(c, c.ref(0))
    good = lambda c, r: z3.And(fit(c, r)[0], fit(c, r)[1] == own_value(c, F(c), r), own_value(c, F(c), r) >= 0)
    member = lambda c, r: exists_range(I(0), n1(c), lambda i: who(c, i) == r)
    def rating(info):
        X = info.X; out = []; vs = [(cell, v) for cell, v in info.st.cells.items() if cell[0] == 'L' and z3.is_expr(v)]
        def about(f, a, b): return lambda v: f(CCtx(X.c0.X, X.c0.pre, v.st, X.c0.fn, X.c0.obj, X.c0.args), v.st.cells[a], v.st.cells[b])
        for a, x in vs:
            for b, y in vs:
                if x.sort() == X.ctx.sort(VR) and y.sort() == X.ctx.sort(VN): out += [('the values are those of the individuals listed', about(lambda c, va, ix: forall_range(I(0), c.len(ix, VN), lambda j: c.at(va, j) == own_value(c, F(c), who(c, c.at(ix, j, VN)))), a, b)),
                    ('those listed are not cached', about(lambda c, va, ix: forall_range(I(0), c.len(ix, VN), lambda j: z3.And(0 <= c.at(ix, j, VN), c.at(ix, j, VN) < n1(c), z3.Not(hit(c, who(c, c.at(ix, j, VN)))))), a, b))]
        return out + in_loop_vec(info, VN, None, ('evaluated individuals have their own value', lambda c, k, v: forall_range(I(0), k, lambda j: good(c, who(c, c.at(v, j, VN)))))) + in_loop(info, ('cached individuals have theirs', lambda c, k: forall_range(I(0), n1(c), lambda i: z3.Implies(hit(c, who(c, i)), good(c, who(c, i))))),
            ('other individuals are as before', lambda c, k: allr(lambda r: z3.Implies(z3.Not(member(c, r)), same_fitness(c, r)))))
    reg.add(Contract(C_ + 'ObtainFitness', allocates=True, requires=lambda c: population(c, 1) + countable(c) + few(c, n1(c)) + [('an objective', c.ref(0) > 0), ('cached values are those of the objective', consistent(c, F(c))), ('room in the cache', room(c, 2**41, 2**30))], loops=[rating],
        modifies=lambda c: [c.floc('cache_hits_'), c.floc('objective_function_counts_'), touched(c)] + fitness_changes, on_throw='modifies', cand_time=40, may_throw=['runtime_error'], throws=[('logic_error', lambda c: exists_range(I(0), n1(c), lambda i: own_value(c, F(c), who(c, i)) < 0))],
        ensures=lambda c: [('every individual has its own value', forall_range(I(0), n1(c), lambda i: good(c, who(c, i)))), ('other individuals are as before', allr(lambda r: z3.Implies(z3.Not(member(c, r)), same_fitness(c, r)))),
            ('cached values are those of the objective', consistent(c, F(c), True)), ('every chromosome evaluated is cached', (lambda q, v: z3.Implies(q != 0, forall_range(I(0), n1(c), lambda i: v.has(chrom(c, who(c, i))))))(*cache_of(c, True))),
            ('individuals not cached are evaluated', counts_(c) == counts(c) + missed(c, 1, n1(c))), ('the others count as hits', hits_(c) == hits(c) + n1(c) - missed(c, 1, n1(c)))]))
    reg.add(Contract(C_ + 'ResetCacheHits', modifies=lambda c: [c.floc('cache_hits_')], ensures=lambda c: [('no hits', hits_(c) == 0)]))
    def cleared(c): q, v = cache_of(c, True); return [('a cache exactly for a positive limit', (q == 0) == (c.f_('cache_data_limit_in_megabytes_') <= 0)), ('nothing is cached', z3.Implies(q != 0, z3.And(q > c.pre.alloc, anyk(v, lambda k: z3.Not(v.dom(k))), v.size() == 0)))]
    reg.add(Contract(C_ + 'ClearCache', allocates=True, modifies=lambda c: [c.floc('cache_')], ensures=cleared))
    reg.add(Contract(C_ + 'get_cache_hits', returns=hits)); reg.add(Contract(C_ + 'get_objective_function_counts', returns=counts))
    reg.add(Contract(C_ + OC, nparams=1, allocates=True, modifies=lambda c: [c.obj], ensures=lambda c: [('keeps the limit', c.f_('cache_data_limit_in_megabytes_') == c.a(0)), ('nothing counted', z3.And(hits_(c) == 0, counts_(c) == 0)), ('has a pool', c.f_('fitness_worker_pool_') > c.pre.alloc)] + cleared(c)))
