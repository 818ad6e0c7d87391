from .base import *
DIR = 'src/optimization/'
FILES = [DIR + 'hooke_jeeves_method.cpp', DIR + 'bounded_nelder_mead.cpp', 'src/common/constants.cpp']
O = 'k52::optimization::'; CO = 'ContinuousOptimizer'; IC = 'IContinuousParameters'
ASSUMPTIONS = ['during one search the value of a point is a function of its coordinates (verified as such in C10, NaN excluded)', 'OutputPolygon writes a file and changes nothing else', 'coordinates of a vector beyond its size play no role']
ARR = z3.ArraySort(z3.IntSort(), z3.RealSort()); VV = VEC(VR)
lower = z3.Function('value_to_minimise', z3.IntSort(), ARR, z3.IntSort(), z3.RealSort())
explored = z3.Function('explored', z3.IntSort(), ARR, ARR, z3.IntSort(), z3.IntSort(), ARR)
def build(reg, P):
    add_floating_point(reg)
    reg.ghosts.update(low=REAL)
    low, low_ = (lambda c: c.g('low')), (lambda c: c.g_('low'))
    value = lambda c, v: lower(c.this, c.arr(v), c.len(v))
    params = lambda c: c.of(c.this, CO, 'parameters_to_optimize_')
    asks = lambda c: [('V', 'low'), ('H', IC, '$values', params(c))]
    evaluates = dict(modifies=asks, may_throw=['evaluation_failure'], on_throw='modifies')
    reg.ghost_fields[(IC, '$values')] = VR
    reg.add(Contract(O + CO + '::CountObjectiveFunctionValueToMinimize', assumed=True, note='verified in C10; low: the lowest value any point had', returns=lambda c: value(c, c.a(0)), sets=lambda c: dict(low=imin(low(c), value(c, c.a(0)))), **evaluates))
    # ---- Hooke-Jeeves
    H = O + 'HookeJeevesMethod::'; HJ = 'HookeJeevesMethod'
    fields = ('acceleration_', 'init_step_', 'max_iteration_number_', 'precision_', 'step_divider_')
    reg.add(Contract(H + HJ, nparams=5, modifies=lambda c: [c.obj], ensures=lambda c: [('keeps the settings', z3.And(*[c.f_(f) == c.a(i) for i, f in enumerate(fields)]))]))
    reg.add(Contract(H + 'Clone', this_cls=HJ, allocates=True, ensures=lambda c: [('a new object with the same settings', z3.And(c.result > c.pre.alloc, *[c.of_(c.result, HJ, f) == c.f(f) for f in fields]))]))
    def step(o, a, s, n, i):
        """coordinate i of a moves by its step when this improves the value strictly, else back when that does, else not"""
        up, down = sto(a, i, sel(a, i) + sel(s, i)), sto(a, i, sel(a, i) - sel(s, i)); f = lambda x: lower(o, x, n)
        return z3.If(f(up) < f(a), up, z3.If(f(down) < f(a), down, a))
    def definition(c):
        a, s = fresh('a', ARR), fresh('s', ARR); k, n = fresh('k', z3.IntSort()), fresh('n', z3.IntSort())
        return [('exploring begins at the point (definition)', z3.ForAll([a, s, n], explored(c.this, a, s, n, I(0)) == a)), ('one coordinate after another (definition)', z3.ForAll([a, s, n, k], z3.Implies(k >= 0, explored(c.this, a, s, n, k + 1) == step(c.this, explored(c.this, a, s, n, k), s, n, k))))]
    n0 = lambda c: c.len(c.a(0)); f0 = lambda c: value(c, c.a(0))
    ex = lambda c, k: explored(c.this, c.arr(c.a(0)), c.arr(c.a(1)), n0(c), k)
    def exploring(info):
        return in_loop_vec(info, VR, None, ('coordinates explored so far', lambda c, k, v: z3.And(c.len(v) == n0(c), c.arr(v) == ex(c, k))), ('not worse than the start', lambda c, k, v: value(c, v) <= f0(c)), ('not worse than any point asked for', lambda c, k, v: z3.Or(low(c) <= low_(c), value(c, v) <= low_(c))))
    reg.add(Contract(H + 'CoordinatewiseSearch', this_cls=HJ, requires=lambda c: definition(c) + [('a step for every coordinate', c.len(c.a(1)) == n0(c))], loops=[exploring], **evaluates,
        ensures=lambda c: [('as many coordinates', c.len(c.result) == n0(c)), ('every coordinate explored in turn', c.arr(c.result) == ex(c, n0(c))), ('not worse than the start', value(c, c.result) <= f0(c)), ('not worse than any point asked for', z3.Or(low(c) <= low_(c), value(c, c.result) <= low_(c)))]))
    norm2 = lambda c: Sum(lambda j: c.at(c.a(0), j) * c.at(c.a(0), j), I(0), n0(c))
    reg.add(Contract(H + 'IsExitCriteriaFulfilled', this_cls=HJ, returns=lambda c: f_sqrt(norm2(c)) <= c.f('precision_')))
    def searching(info): return in_loop_vec(info, VR, None, ('as many coordinates', lambda c, k, v: c.len(v) == n0(c)), ('not worse than the start', lambda c, k, v: value(c, v) <= f0(c)), ('not worse than any point asked for', lambda c, k, v: z3.Or(low(c) <= low_(c), value(c, v) <= low_(c))))
    result = lambda c: [('as many coordinates', c.len(c.result) == n0(c)), ('not worse than the start', value(c, c.result) <= f0(c)), ('not worse than any point asked for', z3.Or(low(c) <= low_(c), value(c, c.result) <= low_(c)))]
    reg.add(Contract(H + 'FindOptimalParameters', this_cls=HJ, requires=definition, loops=[searching], ensures=result, **evaluates))
