from .base import *
FILES = ['src/dsp/haar_wavelet_function.cpp', 'src/dsp/mhat_wavelet_function.cpp', 'src/dsp/morlet_wavelet_function.cpp', 'src/dsp/spline_based_wavelet_function.cpp', 'src/dsp/akima_wavelet_function.cpp', 'src/common/constants.cpp', 'src/dsp/akima_spline.cpp']
D = 'k52::dsp::'
ASSUMPTIONS = ['a spline given to a spline based wavelet refuses fewer than five points, takes the training values at the training abscissae, accepts exactly the arguments from the first to the last abscissa and is not changed by evaluating it (C20 proves this of the Akima spline)']
AR = z3.ArraySort(z3.IntSort(), RSORT)
sval = z3.Function('spline_value', AR, AR, z3.IntSort(), RSORT, RSORT)
def haar(t, a, m, b): return z3.If(z3.And(a <= t, t < m), R(-1), z3.If(z3.And(m < t, t <= b), R(1), R(0)))
k0 = 2 / f_sqrt(R(9)) * f_pow(PI, R('1/4'))
def mhat(t): return k0 * (1 - (t / 3) * (t / 3)) * f_exp(-((t / 3) * (t / 3)) / 2)
def tr(c, p, g): return g(p, 'Spline', '$points'), g(p, 'Spline', '$values')
def trained(c, post=False):
    f, g = (c.f_, c.of_) if post else (c.f, c.of)
    x, y = tr(c, f('spline_'), g)
    return [('a spline is set', f('spline_') != 0), ('trained at at least five points', z3.And(c.len(x) >= 5, c.len(y) == c.len(x))), ('trained on the whole of [-4, 4]', z3.And(c.at(x, I(0)) <= -4, c.at(x, c.len(x) - 1) == 4))]
def increasing(c, v): return forall_range(I(0), c.len(v) - 1, lambda i: c.at(v, i) < c.at(v, i + 1))
def build(reg, P):
    reg.ghost_fields[('Spline', '$points')] = reg.ghost_fields[('Spline', '$values')] = VR
    reg.add(Contract(D + 'HaarWaveletFunction::real', internal=True, returns=lambda c: haar(c.a(0), R('-1/2'), R(0), R('1/2'))))
    reg.add(Contract(D + 'HaarWaveletFunction::imag', internal=True, returns=lambda c: haar(c.a(0), R('-1/4'), R('1/4'), R('3/4'))))
    reg.add(Contract(D + 'HaarWaveletFunction::GetValue', returns=lambda c: cx(haar(c.a(0), R('-1/2'), R(0), R('1/2')), haar(c.a(0), R('-1/4'), R('1/4'), R('3/4')))))
    reg.add(Contract(D + 'MhatWaveletFunction::MhatWaveletFunction', nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('the normalising factor', c.f_('k_') == k0)]))
    normed = lambda c: [('the normalising factor', c.f('k_') == k0)]
    reg.add(Contract(D + 'MhatWaveletFunction::real', internal=True, requires=normed, returns=lambda c: mhat(c.a(0))))
    reg.add(Contract(D + 'MhatWaveletFunction::GetValue', requires=normed, returns=lambda c: cx(mhat(c.a(0)), R(0))))
    reg.add(Contract(D + 'MorletWaveletFunction::GetValue', returns=lambda c: cx(f_exp(-c.a(0) * c.a(0) / 2) * f_cos(5 * c.a(0)), f_exp(-c.a(0) * c.a(0) / 2) * f_sin(5 * c.a(0)))))
    # splines
    gh = lambda c: [('H', 'Spline', '$points', c.this), ('H', 'Spline', '$values', c.this)]
    few = lambda c: z3.Or(c.len(c.a(0)) < 5, c.len(c.a(0)) != c.len(c.a(1)))
    reg.add(Contract(D + 'Spline::Initialize', assumed=True, requires=lambda c: [('increasing abscissae', increasing(c, c.a(0)))], modifies=gh, throws=[('invalid_argument', few)],
        ensures=lambda c: [('trained', z3.And(c.eq(VR, c.of_(c.this, 'Spline', '$points'), c.a(0)), c.eq(VR, c.of_(c.this, 'Spline', '$values'), c.a(1))))]))
    def outside(c):
        x, y = tr(c, c.this, c.of); return z3.Not(z3.And(c.len(x) > 0, c.at(x, I(0)) <= c.a(0), c.a(0) <= c.at(x, c.len(x) - 1)))
    def value(c, p, v):
        x, y = tr(c, p, c.of); return sval(c.arr(x), c.arr(y), c.len(x), v)
    def through(c):
        x, y = tr(c, c.this, c.of); return forall_range(I(0), c.len(x), lambda i: z3.Implies(c.a(0) == c.at(x, i), c.result == c.at(y, i)))
    reg.add(Contract(D + 'Spline::Value', assumed=True, throws=[('out_of_range', outside)], returns=lambda c: value(c, c.this, c.a(0)), ensures=lambda c: [('through the points', through(c))]))
    sp = lambda c: [('H', 'Spline', '$points', c.f('spline_')), ('H', 'Spline', '$values', c.f('spline_'))]
    def init_post(c, v, f, g):
        x, y = tr(c, f('spline_'), g); n = c.len(v); d = 8 / z3.ToReal(n)
        return [('two points more than values', z3.And(c.len(x) == n + 2, c.len(y) == n + 2)),
                ('equally spaced points from -4 on', z3.And(c.at(x, I(0)) == -4 - d, forall_range(I(0), n, lambda i: c.at(x, i + 1) == -4 + d * z3.ToReal(i)))), ('the last point is 4', c.at(x, n + 1) == 4),
                ('every value at its point', forall_range(I(0), n, lambda i: c.at(y, i + 1) == c.at(v, i))), ('zero at both ends', z3.And(c.at(y, I(0)) == 0, c.at(y, n + 1) == 0))]
    enough = lambda c: [('at least three and fewer than 2^31 - 2 values', z3.And(c.len(c.a(0)) >= 3, c.len(c.a(0)) < 2**31 - 2))]
    reg.add(Contract(D + 'SplineBased::Init', requires=lambda c: enough(c) + [('a spline is set', c.f('spline_') != 0)], modifies=sp, ensures=lambda c: init_post(c, c.a(0), c.f_, c.of_) + trained(c, True)))
    reg.add(Contract(D + 'AkimaWavelet::CreateAkimaWavelet', requires=enough, allocates=True,
        ensures=lambda c: init_post(c, c.a(0), lambda f: c.of_(c.result, 'SplineBased', f), c.of_)))
    def inside(c): return z3.And(-4 <= c.a(0), c.a(0) <= 4)
    def based(c): return z3.If(inside(c), value(c, c.f('spline_'), c.a(0)), R(0))
    def pts(c, r):
        x, y = tr(c, c.f('spline_'), c.of)
        return [('passes through the training values', forall_range(I(0), c.len(x), lambda i: z3.Implies(z3.And(inside(c), c.a(0) == c.at(x, i)), r == c.at(y, i))))]
    reg.add(Contract(D + 'SplineBased::real', requires=trained, returns=based, ensures=lambda c: pts(c, c.result)))
    reg.add(Contract(D + 'SplineBased::GetValue', requires=trained, returns=lambda c: cx(based(c), R(0)), ensures=lambda c: pts(c, cre(c.result))))
