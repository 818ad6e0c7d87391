from .base import *
FILES = ['src/dsp/akima_spline.cpp']
A = 'k52::dsp::AkimaSpline::'
VVR = VEC(VR)
AR = z3.ArraySort(z3.IntSort(), RSORT)
def secant_def(x, y, n, j):
    """slope j of the secants, continued by two at each end (j = -2 .. n)"""
    d = lambda j: (sel(y, j + 1) - sel(y, j)) / (sel(x, j + 1) - sel(x, j))
    return z3.If(j == -2, 3 * d(I(0)) - 2 * d(I(1)), z3.If(j == -1, 2 * d(I(0)) - d(I(1)), z3.If(j == n - 1, 2 * d(n - 2) - d(n - 3), z3.If(j == n, 3 * d(n - 2) - 2 * d(n - 3), d(j)))))
secant = define('akima_secant', [AR, AR, z3.IntSort(), z3.IntSort()], secant_def)
def slope_def(p, q, r, s):
    """the Akima slope at a point from the secant slopes two and one to the left, one and two to the right"""
    a, b = rabs(s - r), rabs(q - p)
    return z3.If(a + b == 0, (q + r) / 2, (q * a + r * b) / (a + b))
slope4 = define('akima_slope', [RSORT] * 4, slope_def)
def slope(m, i): return slope4(m(i - 2), m(i - 1), m(i), m(i + 1))
c2 = define('akima_c2', [RSORT] * 5, lambda yi, yj, si, sj, h: (3 * ((yj - yi) / h) - 2 * si - sj) / h)
c3 = define('akima_c3', [RSORT] * 5, lambda yi, yj, si, sj, h: (si + sj - 2 * ((yj - yi) / h)) / (h * h))
def cubic(yi, yj, si, sj, h):
    """coefficients of the cubic with values yi, yj and slopes si, sj at 0 and h"""
    return [yi, si, c2(yi, yj, si, sj, h), c3(yi, yj, si, sj, h)]
class Spline:
    def __init__(s, c, f):
        s.c = c; s.X, s.Y, s.K = f('train_x_'), f('train_y_'), f('coeffs_'); s.n = c.len(s.X)
        s.x, s.y = lambda i: c.at(s.X, i), lambda i: c.at(s.Y, i)
        s.m = lambda j: secant(c.arr(s.X), c.arr(s.Y), s.n, j); s.s = lambda i: slope(s.m, i)
        s.k = lambda i, j: c.at(c.at(s.K, i, VVR), I(j))
    def points(s): return [('at least five points', z3.And(s.n >= 5, s.c.len(s.Y) == s.n)), ('increasing abscissae', increasing(s.c, s.X))]
    def formed(s): return [('one polynomial per interval', z3.And(s.c.len(s.K, VVR) == s.n - 1, forall_range(I(0), s.n - 1, lambda i: s.c.len(s.c.at(s.K, i, VVR)) == 4)))]
    def coeffs(s):
        def at(j): return forall_range(I(0), s.n - 1, lambda i: s.k(i, j) == cubic(s.y(i), s.y(i + 1), s.s(i), s.s(i + 1), s.x(i + 1) - s.x(i))[j])
        return s.formed() + [('coefficient %d is that of the interpolating cubic' % j, at(j)) for j in range(4)]
    def inside(s, v): return z3.And(s.n > 0, s.x(I(0)) <= v, v <= s.x(s.n - 1))
    def interval(s, v): return lambda i: z3.And(0 <= i, i < s.n - 1, s.x(i) <= v, z3.Or(v < s.x(i + 1), z3.And(i == s.n - 2, v == s.x(i + 1))))
def increasing(c, v):
    i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.len(v)), c.at(v, i) < c.at(v, j)))
def pre(c): return Spline(c, c.f)
def post(c): return Spline(c, c.f_)
def hermite(c):
    """the interpolating cubic takes the values and slopes at both ends"""
    yi, yj, si, sj, h = [fresh(n, z3.RealSort()) for n in ('yi', 'yj', 'si', 'sj', 'h')]
    k = cubic(yi, yj, si, sj, h); v = lambda t: k[0] + k[1] * t + k[2] * t * t + k[3] * t * t * t; d = lambda t: k[1] + 2 * k[2] * t + 3 * k[3] * t * t
    return [('the cubic starts at the left value', v(R(0)) == yi), ('the cubic ends at the right value', z3.Implies(h > 0, v(h) == yj)),
            ('the cubic starts with the left slope', d(R(0)) == si), ('the cubic ends with the right slope', z3.Implies(h > 0, d(h) == sj))]
def through(c):
    """the contract of the spline interface (C26): the value at a training point is the training value"""
    X, Y = z3.Const('lx', AR), z3.Const('ly', AR); n, j = fresh('n', z3.IntSort()), fresh('j', z3.IntSort())
    x, y = lambda i: sel(X, i), lambda i: sel(Y, i); k = z3.If(j < n - 1, j, n - 2); s = lambda i: slope(lambda q: secant(X, Y, n, q), i)
    q = cubic(y(k), y(k + 1), s(k), s(k + 1), x(k + 1) - x(k)); d = x(j) - x(k)
    a, b = fresh('a', z3.IntSort()), fresh('b', z3.IntSort())
    h = z3.And(n >= 5, 0 <= j, j < n, z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), x(a) < x(b))))
    return [('every training point lies in an interval', z3.Implies(h, z3.And(0 <= k, k < n - 1, x(k) <= x(j), z3.Or(x(j) < x(k + 1), z3.And(k == n - 2, x(j) == x(k + 1)))))),
            ('the spline takes the training value at a training point', z3.Implies(h, q[0] + q[1] * d + q[2] * d * d + q[3] * d * d * d == y(j)))]
def build(reg, P):
    ia = 'invalid_argument'
    fields = lambda c: [c.floc('train_x_'), c.floc('train_y_'), c.floc('coeffs_')]
    few = lambda c: z3.Or(c.len(c.a(0)) < 5, c.len(c.a(1)) < 5, c.len(c.a(0)) != c.len(c.a(1)))
    reg.add(Contract(A + 'Initialize', requires=lambda c: [('increasing abscissae', increasing(c, c.a(0)))], modifies=fields, throws=[(ia, few)], lemmas=lambda c: hermite(c) + through(c),
        ensures=lambda c: [('keeps the training points', z3.And(c.eq(VR, c.f_('train_x_'), c.a(0)), c.eq(VR, c.f_('train_y_'), c.a(1))))] + post(c).coeffs()))
    reg.add(Contract(A + 'ReestimatePolynomials', internal=True, requires=lambda c: pre(c).points(), modifies=lambda c: [c.floc('coeffs_')], ensures=lambda c: post(c).coeffs()))
    def m_post(c):
        s = pre(c)
        at = lambda j: c.at(c.result, j) == s.m(j - 2)
        return [('four more than intervals', c.len(c.result) == s.n + 3), ('the second continued slope on the left', at(I(0))), ('the first continued slope on the left', at(I(1))), ('the secant slopes', forall_range(I(2), s.n + 1, at)),
                ('the first continued slope on the right', at(s.n + 1)), ('the second continued slope on the right', at(s.n + 2)), ('the secant slopes and their continuation', forall_range(I(0), s.n + 3, lambda j: c.at(c.result, j) == s.m(j - 2)))]
    reg.add(Contract(A + 'CalculateM', internal=True, requires=lambda c: pre(c).points(), ensures=m_post, chain=True))
    def slopes_post(c):
        s = pre(c); m = lambda j: c.at(c.a(0), j + 2)
        return [('one slope per point', c.len(c.result) == s.n), ('the Akima slopes', forall_range(I(0), s.n, lambda i: c.at(c.result, i) == slope(m, i)))]
    reg.add(Contract(A + 'CalculateSlopes', internal=True, requires=lambda c: [('enough secant slopes', c.len(c.a(0)) >= c.len(c.f('train_x_')) + 3)], ensures=slopes_post))
    outside = [('out_of_range', lambda c: z3.Not(pre(c).inside(c.a(0))))]
    sorted_ = lambda c: [('increasing abscissae', increasing(c, c.f('train_x_'))), ('not trained or at least five points', z3.Or(c.len(c.f('train_x_')) == 0, c.len(c.f('train_x_')) >= 5))]
    reg.add(Contract(A + 'ResolveInterval', internal=True, requires=sorted_, throws=outside, ensures=lambda c: [('the interval that contains the argument', pre(c).interval(c.a(0))(c.result))]))
    def value_post(c):
        s = pre(c); x = c.a(0)
        # the stored coefficients are those of the interpolating cubic (requires)
        def stored(i):
            d = x - s.x(i); return c.result == s.k(i, 0) + s.k(i, 1) * d + s.k(i, 2) * d * d + s.k(i, 3) * d * d * d
        return [('the cubic of the interval', forall_range(I(0), s.n - 1, lambda i: z3.Implies(s.interval(x)(i), stored(i))))]
    def trained(c):
        s = pre(c); return sorted_(c) + [('fewer than 2^31 points', s.n < 2**31)] + [(n, z3.Implies(s.n > 0, f)) for n, f in s.points()[:1] + s.coeffs()]
    reg.add(Contract(A + 'Value', requires=trained, throws=outside, ensures=value_post))
