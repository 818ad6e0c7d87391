from .base import *
from .C22 import add_random, draw, base
from .C24 import add_clone
from .C10 import add_params, values, IC
DIR = 'src/optimization/'
FILES = [DIR + f + '.cpp' for f in ('simple_parameters_processor', 'optimization_parameters_processor', 'optimization_task', 'optimization_task_result', 'random_search', 'simulated_annealing')] + ['src/common/random.cpp']
O = 'k52::optimization::'; CO = 'ContinuousOptimizer'; OT = 'OptimizationTask'; TR = 'OptimizationTaskResult'; IP = 'IParameters'
ASSUMPTIONS = ['an objective function is a function of the contents of the parameters, an optimizer of its settings, the objective, the initial contents and the direction; copies of them behave the same',
    'the objective of an optimisation is determined by the values it is asked for (C10)', 'exp((current - new) / 0) is 0 for current <= new (IEEE: exp(-inf), and comparisons with NaN fail)', 'annealing has at least one and fewer than 2^31 parameters']
value = z3.Function('objective_value', z3.IntSort(), z3.IntSort(), z3.RealSort()); optimum = z3.Function('optimised', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort(), z3.IntSort())
ARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
lower = z3.Function('value_to_minimise', z3.IntSort(), ARR, z3.IntSort(), z3.RealSort())
VP = VEC(REF(IP))
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
def only_tasks_def(alloc, n, ts, init, before, after):
    x = fresh('x', z3.IntSort())
    return z3.ForAll([x], z3.Implies(z3.And(x <= alloc, forall_range(I(0), n, lambda i: sel(init, sel(ts, i)) != x)), sel(after, x) == sel(before, x)))
only_tasks = define('only_parameters_of_tasks', [z3.IntSort(), z3.IntSort(), IA, IA, IA, IA], only_tasks_def)
def content(c, r, post=False): return (c.of_ if post else c.of)(r, IP, '$content')
def fn(c, r): return c.of(r, 'IObjectiveFunction', '$fn')
def strategy(c, r): return c.of(r, 'IOptimizer', '$strategy')
def add_objective(reg):
    reg.ghost_fields[('IObjectiveFunction', '$fn')] = I64
    reg.add(Contract(O + 'IObjectiveFunction::operator()', assumed=True, requires=lambda c: [('parameters given', c.a(0) != 0)], returns=lambda c: value(fn(c, c.this), content(c, c.a(0)))))
    reg.add(Contract(O + 'IObjectiveFunction::Clone', assumed=True, allocates=True, ensures=lambda c: [('a new object that behaves the same', z3.And(c.result > c.pre.alloc, c.of_(c.result, 'IObjectiveFunction', '$fn') == fn(c, c.this)))]))
def better(c, up, a, b):
    """a is at least as good as b"""
    return z3.And(z3.Implies(up, a >= b), z3.Implies(z3.Not(up), a <= b))
def add_pool(reg):
    reg.add(Contract('k52::parallel::WorkerPoolFactory::CreateBestWorkerPool', assumed=True, note='C13', allocates=True, ensures=lambda c: [('a pool', c.result > c.pre.alloc)]))
def exp_at_zero(X, st, n, args):
    """exp of a quotient: 0 at a zero divisor"""
    x = z3.simplify(X.rv(st, args[0])) if False else X.rv(st, args[0])
    X.trusted.add('real functions exp, sin, cos, sqrt, log, asin, pow are exact')
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV: return z3.If(z3.And(x.arg(1) == 0, x.arg(0) <= 0), z3.RealVal(0), f_exp(x))
    return f_exp(x)
def build(reg, P):
    add_random(reg); add_params(reg); add_clone(reg); add_objective(reg); add_pool(reg)
    reg.extern['exp'] = exp_at_zero
    reg.replace(Contract(O + 'IContinuousParameters::SetValues', assumed=True, modifies=lambda c: [('H', IC, '$values', c.this)], may_throw=['values_refused'], ensures=lambda c: [('the values given', values(c, c.this, True) == c.a(0))]))
    reg.ghost_fields[('IOptimizer', '$strategy')] = I64
    reg.add(Contract(O + 'IOptimizer::Clone', assumed=True, allocates=True, ensures=lambda c: [('a new object with the same settings', z3.And(c.result > c.pre.alloc, c.of_(c.result, 'IOptimizer', '$strategy') == strategy(c, c.this)))]))
    reg.add(Contract(O + 'IOptimizer::Optimize', assumed=True, allocates=True, requires=lambda c: [('parameters given', c.a(1) > 0)], modifies=lambda c: [('H', IP, '$content', c.a(1))], may_throw=['optimisation_failure'], on_throw='modifies',
        ensures=lambda c: [('the parameters are optimised', content(c, c.a(1), True) == optimum(strategy(c, c.this), fn(c, c.ref(0)), content(c, c.a(1)), c.a(2)))]))
    # the best of the counted values
    def choosing(info):
        """the best value so far and its place"""
        X = info.X; c0 = X.c0; out = []
        for cell, v in list(info.st.cells.items()):
            if not (cell[0] == 'L' and z3.is_expr(v) and v.sort() == X.ctx.sort(VR)): continue
            if z3.is_K(z3.simplify(X.ctx.varr(VR, v))): continue        # not filled yet
            for ic, iv in list(info.st.cells.items()):
                if ic[0] == 'L' and z3.is_expr(iv) and iv.sort() == z3.IntSort() and z3.simplify(iv).eq(I(0)):
                    def mk(f, cell=cell, ic=ic):
                        def g(v):
                            c = CCtx(c0.X, c0.pre, v.st, c0.fn, c0.obj, c0.args); return f(c, v.st.cells[cell], v.st.cells[ic], v.k)
                        return g
                    out += [('the best so far', mk(lambda c, vs, i, k: z3.And(0 <= i, i < k + 1, i < c.len(vs), forall_range(I(0), imin(k + 1, c.len(vs)), lambda j: better(c, c.a(2), c.at(vs, i), c.at(vs, j))))))]
                if ic[0] == 'L' and z3.is_expr(iv) and iv.sort() == z3.RealSort():
                    for kc, kv in list(info.st.cells.items()):
                        if kc[0] == 'L' and z3.is_expr(kv) and kv.sort() == z3.IntSort() and z3.simplify(kv).eq(I(0)):
                            out += [('the value is the one at the index', lambda v, cell=cell, ic=ic, kc=kc: v.st.cells[ic] == sel(X.ctx.varr(VR, v.st.cells[cell]), v.st.cells[kc]))]
        return out
    given = lambda c: [('candidates given', forall_range(I(0), c.len(c.a(1), VP), lambda i: c.at(c.a(1), i, VP) > 0))]
    none = [('invalid_argument', lambda c: c.len(c.a(1), VP) == 0)]
    cand = lambda c, i: c.at(c.a(1), i, VP)
    val = lambda c, i: value(fn(c, c.ref(0)), content(c, cand(c, i)))
    CT = O + 'ObjectiveFunctionCounter::'
    reg.add(Contract(CT + 'ObjectiveFunctionCounter', assumed=True, note='C09', allocates=True, modifies=lambda c: [c.obj]))
    reg.add(Contract(CT + 'CountObjectiveFunctionValues', assumed=True, note='verified in C09', allocates=True, requires=lambda c: [('parameters given', forall_range(I(0), c.len(c.a(0), VP), lambda i: c.at(c.a(0), i, VP) > 0))], modifies=lambda c: [c.floc('objective_function_counts_')],
        ensures=lambda c: [('a value for every parameter object', c.len(c.result) == c.len(c.a(0), VP)), ('its own', forall_range(I(0), c.len(c.a(0), VP), lambda i: c.at(c.result, i) == value(fn(c, c.ref(1)), content(c, c.at(c.a(0), i, VP)))))]))
    S = O + 'SimpleParametersProcessor::'
    reg.add(Contract(S + 'SimpleParametersProcessor', allocates=True, modifies=lambda c: [c.obj]))
    reg.add(Contract(S + 'ExtractPointers', internal=True, ensures=lambda c: [('the same objects in order', z3.And(c.len(c.result, VP) == c.len(c.a(0), VP), forall_range(I(0), c.len(c.a(0), VP), lambda i: c.at(c.result, i, VP) == c.at(c.a(0), i, VP))))]))
    def best(c, value_of, what):
        n = c.len(c.a(1), VP); j = fresh('j', z3.IntSort()); got = value(fn(c, c.ref(0)), content(c, c.result, True))
        return [(what, z3.Exists([j], z3.And(0 <= j, j < n, same_as(c, j)))) for same_as in (value_of[0],)] + [('at least as good as every candidate', forall_range(I(0), n, lambda i: better(c, c.a(2), got, value_of[1](c, i))))]
    reg.add(Contract(S + 'ProcessParameters', allocates=True, requires=given, throws=none, modifies=lambda c: [c.X.field(c.pre, c.X.field(c.pre, c.obj, 'function_counter_'), 'objective_function_counts_')], loops=[choosing],
        ensures=lambda c: best(c, (lambda c, j: c.result == cand(c, j), val), 'one of the candidates')))
    # candidates optimised on their own
    T_ = O + OT + '::'; R_ = O + TR + '::'
    task = lambda c, r, f, post=False: (c.of_ if post else c.of)(r, OT, f)
    outcome = lambda c, r: optimum(strategy(c, task(c, r, 'optimizer_')), fn(c, task(c, r, 'function_to_optimize_')), content(c, task(c, r, 'initial_parameters_')), task(c, r, 'maximize_'))
    own = lambda c, r: z3.And(*[task(c, r, f) > 0 for f in ('initial_parameters_', 'function_to_optimize_', 'optimizer_')])
    reg.add(Contract(T_ + OT, nparams=4, allocates=True, requires=lambda c: [('everything given', z3.And(c.a(0) > 0, c.a(1) > 0, c.a(2) > 0))], modifies=lambda c: [c.obj],
        ensures=lambda c: [('copies of its own', z3.And(*[z3.And(c.f_(f) > c.pre.alloc, c.f_(f) <= c.post.alloc) for f in ('initial_parameters_', 'function_to_optimize_', 'optimizer_')])), ('of the optimizer, the initial contents and the objective, and the direction', z3.And(c.of_(c.f_('optimizer_'), 'IOptimizer', '$strategy') == strategy(c, c.a(0)), content(c, c.f_('initial_parameters_'), True) == content(c, c.a(1)), c.of_(c.f_('function_to_optimize_'), 'IObjectiveFunction', '$fn') == fn(c, c.a(2)), c.f_('maximize_') == c.a(3)))]))
    result_of = lambda c, r: c.of_(r, TR, 'optimal_parameters_')
    reg.add(Contract(T_ + 'Perform', allocates=True, requires=lambda c: [('copies of its own', own(c, c.this))], modifies=lambda c: [('H', IP, '$content', c.f('initial_parameters_'))], may_throw=['optimisation_failure'], on_throw='modifies',
        ensures=lambda c: [('a new result', z3.And(c.result > c.pre.alloc, result_of(c, c.result) > c.pre.alloc)), ('the optimised parameters', content(c, result_of(c, c.result), True) == outcome(c, c.this))]))
    reg.add(Contract(R_ + TR, nparams=1, allocates=True, requires=lambda c: [('parameters given', c.a(0) > 0)], modifies=lambda c: [c.obj], ensures=lambda c: [('a copy of its own', z3.And(c.f_('optimal_parameters_') > c.pre.alloc, content(c, c.f_('optimal_parameters_'), True) == content(c, c.a(0))))]))
    reg.add(Contract(R_ + 'get_optimal_parameters', returns=lambda c: c.f('optimal_parameters_')))
    VT = VEC(REF('ITask')); VR_ = VEC(REF('ITaskResult'))
    def done(c):
        n = c.len(c.a(0), VT); t = lambda i: c.at(c.a(0), i, VT); r = lambda i: c.at(c.result, i, VR_)
        return kept(c) + [('a result for every task', c.len(c.result, VR_) == n),
            ('its own', forall_range(I(0), n, lambda i: z3.And(r(i) > c.pre.alloc, c.X.isinst(r(i), TR), result_of(c, r(i)) > c.pre.alloc, content(c, result_of(c, r(i)), True) == outcome(c, t(i)))))]
    def kept(c):
        x = fresh('x', z3.IntSort())
        return [('only the parameters of the tasks change', only_tasks(c.pre.alloc, c.len(c.a(0), VT), c.arr(c.a(0), VT), c.H(OT, 'initial_parameters_'), c.H(IP, '$content'), c.H_(IP, '$content'))),
            ('results made before are kept', z3.ForAll([x], z3.Implies(x <= c.pre.alloc, result_of(c, x) == c.of(x, TR, 'optimal_parameters_'))))]
    def tasks_ready(c):
        n = c.len(c.a(0), VT); t = lambda i: c.at(c.a(0), i, VT); i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
        return [('every task has parameters, objective and optimizer', forall_range(I(0), n, lambda i: z3.And(t(i) > 0, c.X.isinst(t(i), OT), own(c, t(i))))), ('no two tasks share parameters', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), task(c, t(i), 'initial_parameters_') != task(c, t(j), 'initial_parameters_'))))]
    reg.add(Contract('k52::parallel::IWorkerPool::DoTasks', assumed=True, note='result i is the one task i produces (C13), which is what the contract of OptimizationTask::Perform verified here says', allocates=True, requires=tasks_ready, modifies=lambda c: [('H', IP, '$content'), ('H', TR, 'optimal_parameters_')], may_throw=['optimisation_failure'], on_throw='modifies', throw_ensures=kept, ensures=done))
    PP = O + 'OptimizationParametersProcessor::'
    reg.add(Contract(PP + 'OptimizationParametersProcessor', allocates=True, modifies=lambda c: [c.obj], ensures=lambda c: [('keeps the optimizer', c.f_('optimizer_') == c.a(0)), ('has a pool', c.f_('worker_pool_') > 0)]))
    tuned = lambda c, i: optimum(strategy(c, c.f('optimizer_')), fn(c, c.ref(0)), content(c, cand(c, i)), c.a(2))
    def making(c, k, tasks):
        t = lambda i: c.at(tasks, i, VT); i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort()); P_ = lambda i, f: task(c, t(i), f, True)
        return [('new tasks', forall_range(I(0), k, lambda i: z3.And(t(i) > c.pre.alloc, t(i) <= c.post.alloc, c.X.isinst(t(i), OT)))),
            ('copies of their own', forall_range(I(0), k, lambda i: z3.And(*[z3.And(P_(i, f) > c.pre.alloc, P_(i, f) <= c.post.alloc) for f in ('initial_parameters_', 'function_to_optimize_', 'optimizer_')]))),
            ('no two share parameters', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), P_(i, 'initial_parameters_') < P_(j, 'initial_parameters_')))),
            ('the task of every candidate', forall_range(I(0), k, lambda i: z3.And(c.of_(P_(i, 'optimizer_'), 'IOptimizer', '$strategy') == strategy(c, c.f('optimizer_')), c.of_(P_(i, 'function_to_optimize_'), 'IObjectiveFunction', '$fn') == fn(c, c.ref(0)), content(c, P_(i, 'initial_parameters_'), True) == content(c, cand(c, i)), P_(i, 'maximize_') == c.a(2))))]
    def filling(info):
        out = choosing(info); srt = info.X.ctx.sort(VR_)
        if any(cell[0] == 'L' and z3.is_expr(v) and v.sort() == srt for cell, v in info.st.cells.items()): return out
        for t in (VT, VEC(REF(OT))):
            for m in range(4): out += in_loop_vec(info, t, None, ('tasks made so far %d' % m, lambda c, k, v, m=m: making(c, k, v)[m][1]))
        return out
    reg.add(Contract(PP + 'ProcessParameters', allocates=True, requires=lambda c: given(c) + [('an optimizer and a pool', z3.And(c.f('optimizer_') > 0, c.f('worker_pool_') > 0))], throws=none, may_throw=['optimisation_failure'], modifies=lambda c: [], loops=[filling], name_arrays=True, cand_time=5,
        ensures=lambda c: [('a new object', c.result > c.pre.alloc)] + best(c, (lambda c, j: content(c, c.result, True) == tuned(c, j), lambda c, i: value(fn(c, c.ref(0)), tuned(c, i))), 'one of the candidates, optimised')))
    # random search
    reg.ghosts.update(pf=I64, pp=VP, pm=BOOL, presult=I64)
    GP = [('V', g) for g in ('pf', 'pp', 'pm', 'presult')]
    reg.add(Contract(O + 'IParametersProcessor::ProcessParameters', assumed=True, note='any processor', requires=given, allocates=True, modifies=lambda c: GP, sets=lambda c: dict(pf=c.ref(0), pp=c.a(1), pm=c.a(2)), throws=none, may_throw=['processing_failure'], ensures=lambda c: [('the parameters returned', c.g_('presult') == c.result)]))
    for n in ('function_to_optimize', 'parameters_to_optimize', 'maximize'): reg.add(Contract(O + CO + '::get_' + n, assumed=True, note='verified in C10', returns=lambda c, n=n: c.of(c.this, CO, n + '_')))
    RS = O + 'RandomSearch::'; kind = lambda c, r: z3.And(r != 0, c.X.isinst(r, IC)); N = lambda c: c.f('number_of_random_points_')
    reg.add(Contract(RS + 'RandomSearch', nparams=4, allocates=True, modifies=lambda c: [c.obj], ensures=lambda c: [('keeps number and bounds', z3.And(N_(c) == c.a(0), c.f_('lower_bound_') == c.a(1), c.f_('upper_bound_') == c.a(2))), ('has a processor', c.f_('parameters_processor_') > c.pre.alloc), ('candidates are optimised exactly when an optimizer is given', z3.If(c.a(3) == 0, c.X.isinst(c.f_('parameters_processor_'), 'SimpleParametersProcessor'), z3.And(c.X.isinst(c.f_('parameters_processor_'), 'OptimizationParametersProcessor'), c.of_(c.f_('parameters_processor_'), 'OptimizationParametersProcessor', 'optimizer_') == c.a(3))))]))
    N_ = lambda c: c.f_('number_of_random_points_')
    inbox = lambda c, r: z3.And(c.len(values(c, r, True)) == c.len(c.a(0)), forall_range(I(0), c.len(c.a(0)), lambda i: z3.And(c.f('lower_bound_') <= c.at(values(c, r, True), i), c.at(values(c, r, True), i) <= c.f('upper_bound_'))))
    def candidates(c, k, v): r = lambda i: c.at(v, i, VP); return [('new objects', forall_range(I(0), k, lambda i: z3.And(r(i) > c.pre.alloc, r(i) <= c.post.alloc))), ('inside the box', forall_range(I(0), k, lambda i: inbox(c, r(i))))]
    def drawing(info): return [x for m in range(2) for x in in_loop_vec(info, VP, None, ('candidates so far %d' % m, lambda c, k, v, m=m: candidates(c, k, v)[m][1]))]
    reg.add(Contract(RS + 'FindOptimalParameters', allocates=True, requires=lambda c: [('bounds in order', c.f('lower_bound_') <= c.f('upper_bound_')), ('fewer than 2^59 candidates', N(c) < 2**59), ('an objective, parameters and a processor are set', z3.And(c.of(c.this, CO, 'function_to_optimize_') > 0, c.of(c.this, CO, 'parameters_to_optimize_') > 0, c.f('parameters_processor_') > 0))],
        modifies=lambda c: [('V', 'rndpos')] + GP, on_throw='modifies', throws=[('invalid_argument', lambda c: N(c) == 0), ('logic_error', lambda c: z3.Not(kind(c, c.g_('presult'))))], may_throw=['processing_failure', 'values_refused'], loops=[drawing],
        ensures=lambda c: [('as many candidates as asked', c.len(c.g_('pp'), VP) == N(c)), ('every candidate inside the box', forall_range(I(0), N(c), lambda i: inbox(c, c.at(c.g_('pp'), i, VP)))), ('processed for the objective and direction', z3.And(c.g_('pf') == c.of(c.this, CO, 'function_to_optimize_'), c.g_('pm') == c.of(c.this, CO, 'maximize_'))),
            ('the processed best is returned', c.eq(VR, c.result, values(c, c.g_('presult'), True)))]))
    # annealing
    SA = O + 'SimulatedAnnealing::'; M = lambda c: c.f('max_number_of_iterations_')
    reg.add(Contract(O + CO + '::CountObjectiveFunctionValueToMinimize', assumed=True, note='verified in C10', modifies=lambda c: [('H', IC, '$values', c.of(c.this, CO, 'parameters_to_optimize_'))], on_throw='modifies', may_throw=['evaluation_failure'], returns=lambda c: lower(c.this, c.arr(c.a(0)), c.len(c.a(0)))))
    reg.add(Contract(SA + 'SimulatedAnnealing', nparams=3, modifies=lambda c: [c.obj], ensures=lambda c: [('keeps iterations and bounds', z3.And(c.f_('max_number_of_iterations_') == c.a(0), c.f_('min_parameter_value_') == c.a(1), c.f_('max_parameter_value_') == c.a(2)))]))
    temperature = lambda c, i: z3.ToReal(M(c) - i) / z3.ToReal(M(c))
    reg.add(Contract(SA + 'CountTemperature', this_cls='SimulatedAnnealing', requires=lambda c: [('one of the iterations', z3.And(c.a(0) >= 0, c.a(0) <= M(c), M(c) > 0))], returns=lambda c: temperature(c, c.a(0)),
        ensures=lambda c: [('not negative', c.result >= 0), ('zero in the last iteration', z3.Implies(c.a(0) == M(c), c.result == 0)), ('at most the start temperature', c.result <= temperature(c, I(0))), ('falls', z3.Implies(c.a(0) > 0, c.result < temperature(c, c.a(0) - 1)))]))
    def accept(cur, new, t): return z3.If(new < cur, R(1), z3.If(z3.And(t == 0), R(0), f_exp((cur - new) / t)))
    reg.add(Contract(SA + 'CountAcceptanceProbability', this_cls='SimulatedAnnealing', throws=[('runtime_error', lambda c: c.a(2) < 0)], returns=lambda c: accept(c.a(0), c.a(1), c.a(2)),
        ensures=lambda c: [('a probability', z3.And(c.result >= 0, c.result <= 1)), ('improvements are always accepted', z3.Implies(c.a(1) < c.a(0), c.result == 1))]))
    box = lambda c: [('bounds in order', c.f('min_parameter_value_') <= c.f('max_parameter_value_')), ('fewer than 2^31 parameters, at least one', z3.And(c.len(c.a(0)) >= 1, c.len(c.a(0)) < 2**31))]
    seq = lambda X: (lambda p: __import__('engine.contracts', fromlist=['rand_seq']).rand_seq(X)(p))
    def changed(c, arr, n, pos):
        d = seq(c.X); b = z3.ToReal(d(pos + 1)) / (2**31 - 1)
        return sto(arr, d(pos) % n, b * (c.f('max_parameter_value_') - c.f('min_parameter_value_')) + c.f('min_parameter_value_'))
    reg.add(Contract(SA + 'GetRandomNeighbour', this_cls='SimulatedAnnealing', internal=True, requires=box, modifies=lambda c: [('V', 'rndpos')], sets=lambda c: dict(rndpos=c.g('rndpos') + 2),
        ensures=lambda c: [('as many coordinates', c.len(c.result) == c.len(c.a(0))), ('one drawn coordinate is drawn again', c.arr(c.result) == changed(c, c.arr(c.a(0)), c.len(c.a(0)), c.g('rndpos'))),
            ('only one coordinate changes', (lambda j: forall_range(I(0), c.len(c.a(0)), lambda i: z3.Or(i == j, c.at(c.result, i) == c.at(c.a(0), i))))(draw(c) % c.len(c.a(0)))), ('the change stays inside the bounds', (lambda x: z3.And(c.f('min_parameter_value_') <= x, x <= c.f('max_parameter_value_')))(c.at(c.result, draw(c) % c.len(c.a(0)))))]))
    walk = z3.Function('walk', z3.IntSort(), ARR)
    def step(c, k):
        n = c.len(c.a(0)); p = c.g('rndpos') + 3 * k; cur = walk(k); new = changed(c, cur, n, p); low = lambda a: lower(c.this, a, n); d = seq(c.X)
        return z3.If(z3.ToReal(d(p + 2)) / (2**31 - 1) <= accept(low(cur), low(new), temperature(c, k + 1)), new, cur)
    def definition(c):
        k = fresh('k', z3.IntSort())
        return [('the walk starts at the initial parameters (definition)', walk(I(0)) == c.arr(c.a(0))), ('one step accepts the neighbour or stays (definition)', z3.ForAll([k], z3.Implies(z3.And(k >= 0), walk(k + 1) == step(c, k))))]
    def annealing(info):
        return in_loop_vec(info, VR, None, ('the walk', lambda c, k, v: z3.And(c.len(v) == c.len(c.a(0)), c.arr(v) == walk(k)))) + in_loop(info, ('three draws per step', lambda c, k: c.g_('rndpos') == c.g('rndpos') + 3 * k))
    reg.add(Contract(SA + 'FindOptimalParameters', this_cls='SimulatedAnnealing', requires=lambda c: box(c) + definition(c) + [('fewer than 2^62 iterations', M(c) < 2**62)], modifies=lambda c: [('V', 'rndpos'), ('H', IC, '$values', c.of(c.this, CO, 'parameters_to_optimize_'))], on_throw='modifies', may_throw=['evaluation_failure'], loops=[annealing],
        ensures=lambda c: [('as many coordinates', c.len(c.result) == c.len(c.a(0))), ('the walk of all iterations', c.arr(c.result) == walk(M(c)))]))
