from .base import *
FILES = ['src/optimization/continuous_optimizer.cpp', 'src/optimization/continuous_objective_function.cpp', 'src/optimization/discrete_objective_function.cpp', 'src/optimization/discrete_optimizer.cpp', 'src/optimization/params/continuous_parameters_array.cpp']
O = 'k52::optimization::'; IC = 'IContinuousParameters'; CO = 'ContinuousOptimizer'; A = O + 'ContinuousParametersArray::'
ASSUMPTIONS = ['continuous parameters hold a list of values, set and read as a whole (verified here for the array of the library); whether they satisfy their constraints depends on the object and the values',
    'an objective function is a function of the values, and of the content for discrete parameters', 'a search strategy changes the values of the parameters being optimised only, through the functions verified here']
feasible = z3.Function('satisfies_constraints', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.BoolSort())
refuses = z3.Function('refuses_values', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.BoolSort())
objective = z3.Function('objective', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
dvalue = z3.Function('discrete_objective', z3.IntSort(), z3.IntSort(), z3.RealSort())
def of_vec(c, f, r, v): return f(r, c.arr(v, VR), c.len(v, VR))
def values(c, r, post=False): return (c.of_ if post else c.of)(r, IC, '$values')
def obj(c, f, v): return of_vec(c, objective, f, v)
def ok(c, p, v): return of_vec(c, feasible, p, v)
LOG = [('V', 'evals'), ('V', 'last')]
def one_eval(c): return dict(evals=c.g('evals') + 1)
def is_a(c, r, k): return c.X.isinst(r, k)
def add_params(reg):
    """continuous parameters through the contract of their interface"""
    reg.ghost_fields[(IC, '$values')] = VR
    reg.add(Contract(O + 'IContinuousParameters::GetValues', assumed=True, returns=lambda c: values(c, c.this)))
    reg.add(Contract(O + 'IContinuousParameters::SetValues', assumed=True, modifies=lambda c: [('H', IC, '$values', c.this)], throws=[('invalid_argument', lambda c: of_vec(c, refuses, c.this, c.a(0)))], ensures=lambda c: [('the values given', values(c, c.this, True) == c.a(0))]))
    reg.add(Contract(O + 'IParameters::CheckConstraints', assumed=True, returns=lambda c: ok(c, c.this, values(c, c.this))))
    reg.add(Contract(O + 'IContinuousParameters::Clone', assumed=True, allocates=True, ensures=lambda c: [('a new object with the same values and constraints', z3.And(c.result > c.pre.alloc, values(c, c.result, True) == values(c, c.this)))] + same_kind(c)))
def same_kind(c):
    v = fresh('v', z3.ArraySort(z3.IntSort(), z3.RealSort())); n = fresh('n', z3.IntSort())
    return [('the same constraints', z3.ForAll([v, n], z3.And(feasible(c.result, v, n) == feasible(c.this, v, n), refuses(c.result, v, n) == refuses(c.this, v, n))))]
def build(reg, P):
    add_params(reg)
    reg.ghosts.update(evals=I64, last=VR, begun_f=I64, begun_p=I64, begun_max=BOOL, begun_at=VR, found=VR, delegated=I64)
    F = O + 'ContinuousObjectiveFunction::operator()'; D = O + 'DiscreteObjectiveFunction::operator()'
    reg.add(Contract(F, sig='vector', assumed=True, modifies=lambda c: LOG, sets=lambda c: dict(evals=c.g('evals') + 1, last=c.a(0)), returns=lambda c: obj(c, c.this, c.a(0))))
    one = lambda c: [('evaluated once', c.g_('evals') == c.g('evals') + 1)]
    at = lambda c, p: one(c) + [('evaluated at the values of the parameters', c.g_('last') == values(c, p))]
    given = lambda c: [('parameters given', c.a(0) > 0)]
    reg.add(Contract(F, sig='IContinuousParameters', requires=given, modifies=lambda c: LOG, returns=lambda c: obj(c, c.this, values(c, c.a(0))), ensures=lambda c: at(c, c.a(0))))
    wrong = lambda k: [('logic_error', lambda c: z3.Or(c.a(0) == 0, z3.Not(is_a(c, c.a(0), k))))]
    reg.add(Contract(F, sig='const IParameters', modifies=lambda c: LOG, throws=wrong(IC), returns=lambda c: obj(c, c.this, values(c, c.a(0))), ensures=lambda c: at(c, c.a(0))))
    reg.add(Contract(D, sig='IDiscreteParameters', assumed=True, modifies=lambda c: [('V', 'delegated')], sets=lambda c: dict(delegated=c.a(0)), returns=lambda c: dvalue(c.this, c.a(0))))
    reg.add(Contract(D, sig='const IParameters', modifies=lambda c: [('V', 'delegated')], throws=wrong('IDiscreteParameters'), returns=lambda c: dvalue(c.this, c.a(0)), ensures=lambda c: [('the parameters are passed on', c.g_('delegated') == c.a(0))]))
    # the optimizer
    fn = lambda c, post=False: (c.f_ if post else c.f)('function_to_optimize_'); pr = lambda c, post=False: (c.f_ if post else c.f)('parameters_to_optimize_')
    ready = lambda c: [('an objective and parameters are set', z3.And(fn(c) > 0, pr(c) > 0))]
    vals = lambda c: [('H', IC, '$values', pr(c))]
    COUNT = O + CO + '::CountObjectiveFunctionValue'
    counting = dict(requires=ready, modifies=lambda c: vals(c) + LOG, on_throw=vals,
        throws=[('invalid_argument', lambda c: of_vec(c, refuses, pr(c), c.a(0))), ('logic_error', lambda c: z3.Not(ok(c, pr(c), c.a(0))))],
        ensures=lambda c: [('evaluated once', c.g_('evals') == c.g('evals') + 1), ('evaluated at the values asked for', c.g_('last') == c.a(0)), ('the values satisfy the constraints', ok(c, pr(c), c.a(0))), ('the parameters hold them', values(c, pr(c), True) == c.a(0))])
    reg.add(Contract(COUNT, internal=True, returns=lambda c: obj(c, fn(c), c.a(0)), **counting))
    signed = lambda up: lambda c: z3.If(c.f('maximize_') == z3.BoolVal(up), obj(c, fn(c), c.a(0)), -obj(c, fn(c), c.a(0)))
    reg.add(Contract(COUNT + 'ToMaximize', returns=signed(True), **counting))
    reg.add(Contract(COUNT + 'ToMinimize', returns=signed(False), **counting))
    for n in ('function_to_optimize', 'parameters_to_optimize', 'maximize'): reg.add(Contract(O + CO + '::get_' + n, returns=lambda c, n=n: c.f(n + '_')))
    G = [('V', g) for g in ('begun_f', 'begun_p', 'begun_max', 'begun_at', 'found')]
    begun = lambda c: dict(begun_f=fn(c), begun_p=pr(c), begun_max=c.f('maximize_'), begun_at=c.a(0))
    reg.add(Contract(O + CO + '::FindOptimalParameters', this_cls=CO, assumed=True, note='any search strategy', requires=lambda c: ready(c), allocates=True, may_throw=['exception'], on_throw=lambda c: vals(c) + LOG,
        modifies=lambda c: vals(c) + LOG + G, sets=begun, ensures=lambda c: [('the point found', c.g_('found') == c.result)]))
    fields = lambda c: [c.floc(f) for f in ('function_to_optimize_', 'parameters_to_optimize_', 'maximize_')]
    def optimized(f, p):
        return lambda c: [('the search is for the objective given', c.g_('begun_f') == f(c)), ('the search changes the parameters given', c.g_('begun_p') == p(c)), ('the search is in the direction asked for', c.g_('begun_max') == c.a(2)), ('the search starts from the values held before', c.g_('begun_at') == values(c, p(c))),
            ('the parameters hold exactly the point found', values(c, p(c), True) == c.g_('found'))]
    f0 = lambda c: c.ref(0); p1 = lambda c: c.a(1)
    both = dict(allocates=True, modifies=lambda c: fields(c) + [('H', IC, '$values', c.a(1))] + LOG + G, on_throw='modifies')
    reg.add(Contract(O + CO + '::Optimize', this_cls=CO, sig='IContinuousParameters', requires=lambda c: [('parameters given', c.a(1) > 0)], may_throw=['exception', 'invalid_argument'], ensures=optimized(f0, p1), **both))
    bad = lambda c, k: z3.Or(c.a(1) == 0, z3.Not(is_a(c, c.a(1), k)))
    reg.add(Contract(O + CO + '::Optimize', this_cls=CO, sig='IObjectiveFunction', may_throw=['exception', 'invalid_argument'], throws=[('logic_error', lambda c: bad(c, IC)), ('bad_cast', lambda c: z3.And(z3.Not(bad(c, IC)), z3.Not(is_a(c, c.ref(0), 'ContinuousObjectiveFunction'))))], ensures=optimized(f0, p1), **both))
    DO = 'DiscreteOptimizer'; DG = ['dbegun_f', 'dbegun_p', 'dbegun_max']; reg.ghosts.update(dbegun_f=I64, dbegun_p=I64, dbegun_max=BOOL)
    dm = lambda c: [('V', g) for g in DG]
    reg.add(Contract(O + DO + '::Optimize', this_cls=DO, sig='IDiscreteParameters', assumed=True, note='any discrete strategy', allocates=True, modifies=dm, sets=lambda c: dict(dbegun_f=c.ref(0), dbegun_p=c.a(1), dbegun_max=c.a(2)), may_throw=['exception']))
    reg.add(Contract(O + DO + '::Optimize', this_cls=DO, sig='IObjectiveFunction', allocates=True, modifies=dm, may_throw=['exception'], throws=[('logic_error', lambda c: bad(c, 'IDiscreteParameters')), ('bad_cast', lambda c: z3.And(z3.Not(bad(c, 'IDiscreteParameters')), z3.Not(is_a(c, c.ref(0), 'DiscreteObjectiveFunction'))))],
        ensures=lambda c: [('objective, parameters and direction are passed on', z3.And(c.g_('dbegun_f') == c.ref(0), c.g_('dbegun_p') == c.a(1), c.g_('dbegun_max') == c.a(2)))]))
    # the array of the library meets the interface
    own = lambda c, post=False: (c.f_ if post else c.f)('values_')
    keeps = lambda i: lambda c: [('stores exactly the values given', c.eq(VR, own(c, True), c.a(i)))]
    reg.add(Contract(A + 'ContinuousParametersArray', sig='vector', modifies=lambda c: [c.obj], ensures=keeps(0)))
    reg.add(Contract(A + 'ContinuousParametersArray', sig='size_t', modifies=lambda c: [c.obj], ensures=lambda c: [('a value per parameter', c.len(own(c, True)) == c.a(0))]))
    reg.add(Contract(A + 'SetValues', modifies=lambda c: [c.floc('values_')], throws=[('invalid_argument', lambda c: c.len(c.a(0)) != c.len(own(c)))], ensures=keeps(0)))
    reg.add(Contract(A + 'GetValues', returns=own))
    reg.add(Contract(A + 'CheckConstraints', returns=lambda c: z3.BoolVal(True)))
    reg.add(Contract(A + 'Clone', allocates=True, ensures=lambda c: [('a new object with the same values', z3.And(c.result > c.pre.alloc, c.eq(VR, c.of_(c.result, 'ContinuousParametersArray', 'values_'), own(c))))]))
