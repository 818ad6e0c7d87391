from .base import *
FILES = ['src/dsp/transform/wavelet/linear_scale.cpp', 'src/dsp/transform/wavelet/logarithmic_scale.cpp']
D = 'k52::dsp::'
def two_to(e): return f_ipow(R(2), e)
def linear_at(c, f):
    lo, hi, n = f('min_scale_'), f('max_scale_'), f('scale_count_')
    return lambda i: lo + z3.ToReal(i) * (hi - lo) / (z3.ToReal(n) - 1)
def linear_scales(c, v, f, what):
    n = f('scale_count_'); at = linear_at(c, f)
    g = lambda i: c.at(v, i)
    return [(what + 'as many values as asked for', c.len(v) == n), (what + 'point i lies i/(n-1) of the way', forall_range(I(0), n, lambda i: g(i) == at(i))),
            (what + 'strictly increasing', forall_range(I(1), n, lambda i: g(i - 1) < g(i))),
            (what + 'starts at the minimum and ends at the maximum', z3.And(g(I(0)) == f('min_scale_'), g(n - 1) == f('max_scale_')))]
def linear_state(c, f): return z3.And(f('min_scale_') > 0, f('max_scale_') > f('min_scale_'), f('scale_count_') >= 2)
def log_ok(c): return [('exponents of finite doubles', z3.And(c.a(0) >= -1074, c.a(0) <= 1023, c.a(1) >= -1074, c.a(1) <= 1023))]
def log_scales(c, v, what=''):
    a, b = c.a(0), c.a(1); g = lambda i: c.at(v, i)
    return [(what + 'one value per exponent', c.len(v) == b - a + 1), (what + 'value i is 2^(a+i)', forall_range(I(0), b - a + 1, lambda i: g(i) == two_to(a + i))),
            (what + 'every value is positive', forall_range(I(0), b - a + 1, lambda i: g(i) > 0)),
            (what + 'every value is twice the one before', forall_range(I(1), b - a + 1, lambda i: g(i) == 2 * g(i - 1)))]
def build(reg, P):
    ia = 'invalid_argument'
    reg.add(Contract(D + 'LinearScale::LinearScale', nparams=3, modifies=lambda c: [c.obj],
        throws=[(ia, lambda c: z3.Or(c.a(0) <= 0, c.a(1) <= 0, c.a(0) >= c.a(1), c.a(2) < 2))],
        ensures=lambda c: [('keeps its bounds', z3.And(c.f_('min_scale_') == c.a(0), c.f_('max_scale_') == c.a(1), c.f_('scale_count_') == c.a(2)))] + linear_scales(c, c.f_('scales_'), c.f_, '')))
    reg.add(Contract(D + 'LinearScale::CalculateScales', internal=True, requires=lambda c: [('bounds increase', linear_state(c, c.f))], ensures=lambda c: linear_scales(c, c.result, c.f, '')))
    reg.add(Contract(D + 'LinearScale::GetScales', returns=lambda c: c.f('scales_')))
    reg.add(Contract(D + 'LogarithmicScale::LogarithmicScale', nparams=2, requires=log_ok, modifies=lambda c: [c.obj], throws=[(ia, lambda c: c.a(0) >= c.a(1))],
        ensures=lambda c: log_scales(c, c.f_('scales_'))))
    reg.add(Contract(D + 'LogarithmicScale::CalculateScales', internal=True, requires=lambda c: log_ok(c) + [('exponents increase', c.a(0) < c.a(1))], ensures=lambda c: log_scales(c, c.result)))
    reg.add(Contract(D + 'LogarithmicScale::GetScales', returns=lambda c: c.f('scales_')))
