from .base import *
from .C18 import psi
FILES = ['src/dsp/wavelet.cpp', 'src/dsp/cwt.cpp', '/verif/drivers/cwt.cpp']
D = 'k52::dsp::'; W = D + 'Wavelet::'
VVR = VEC(VR)
ASSUMPTIONS = ['the progress callback changes neither the wavelet nor the data']
LOG, LIN = 0, 1
# a wavelet: its settings and samples, read through f
class Wv:
    def __init__(s, c, f):
        s.c = c; s.base, s.count, s.L, s.mn = f('base_function_'), f('count_'), f('max_lenght_'), f('min_lenght_')
        s.re, s.im, s.sc = f('real_part_'), f('imaj_part_'), f('scale_')
    def rows(s, v): return s.c.len(v, VVR)
    def row(s, v, i): return s.c.at(v, i, VVR)
    def built(s):
        return z3.And(s.rows(s.re) == s.count, s.rows(s.im) == s.count, s.c.len(s.sc) == s.count, forall_range(I(0), s.count, lambda i: z3.And(s.c.len(s.row(s.re, i)) == s.L, s.c.len(s.row(s.im, i)) == s.L)))
    def empty(s): return z3.Or(s.rows(s.re) == 0, s.rows(s.im) == 0, s.c.len(s.sc) == 0)
    def sizes(s): return [('positive sizes', z3.And(s.count >= 0, s.count < 2**31 - 1, s.L >= 2, s.mn >= 1))]
    def log_scale(s): return forall_range(I(0), s.count, lambda i: s.c.at(s.sc, i) == f_exp(z3.ToReal(i) / z3.ToReal(s.count) * f_log(z3.ToReal(s.L) / z3.ToReal(s.mn))))
    def samples(s):
        L = z3.ToReal(s.L)
        def at(i, j):
            x = (z3.ToReal(j) - L / 2) * s.c.at(s.sc, i) * 4 / z3.ToReal(s.L / 2); v = psi(s.base, x)
            return z3.And(s.c.at(s.row(s.re, i), j) == cre(v), s.c.at(s.row(s.im, i), j) == cim(v))
        return forall_range(I(0), s.count, lambda i: forall_range(I(0), s.L, lambda j: at(i, j)))
    def modulus(s, i, data):
        """modulus of the correlation of data (a function of the position) with wavelet i"""
        a = Sum(lambda j: s.c.at(s.row(s.re, i), j) * data(j), 0, s.L); b = Sum(lambda j: s.c.at(s.row(s.im, i), j) * data(j), 0, s.L)
        return f_sqrt(a * a + b * b)
def here(c): return Wv(c, c.f)
def after(c): return Wv(c, c.f_)
def build(reg, P):
    reg.add(Contract(D + 'IWavelet::GetValue', assumed=True, note='a wavelet is a function of its argument (C26 verifies the ones of the library)', returns=lambda c: psi(c.this, c.a(0))))
    reg.add(Contract(D + 'ProgressReceiver::operator()', assumed=True, note='any callback'))
    ty = lambda c: c.a('type')
    scale_post = lambda c: [('one scale per wavelet', c.len(after(c).sc) == here(c).count), ('logarithmic scales', z3.Implies(ty(c) == LOG, after(c).log_scale()))]
    unknown = ('string', lambda c: z3.And(ty(c) != LOG, ty(c) != LIN))
    reg.add(Contract(W + 'createScale', internal=True, requires=lambda c: here(c).sizes(), modifies=lambda c: [c.floc('scale_')], on_throw='modifies', throws=[unknown], ensures=scale_post))
    parts = lambda c: [c.floc(n) for n in ('real_part_', 'imaj_part_', 'scale_')]
    reg.add(Contract(W + 'createWavelet', requires=lambda c: here(c).sizes(), modifies=parts, on_throw='modifies', throws=[('string', lambda c: here(c).base == 0), unknown],
        ensures=lambda c: [('one row per scale, one sample per position', after(c).built())] + scale_post(c) + [('samples of the base function', after(c).samples())],
        throw_ensures=lambda c: [('a refused wavelet keeps what it had without a base function', z3.Implies(here(c).base == 0, z3.And(*[c.eq(c.ft(n), c.f_(n), c.f(n)) for n in ('real_part_', 'imaj_part_', 'scale_')])))]))
    reg.add(Contract(W + 'BuildWavelet', requires=lambda c: [('positive sizes', z3.And(c.a('count') >= 0, c.a('count') < 2**31 - 1, c.a('max_lenght') >= 2, c.a('min_lenght') >= 1))], allocates=True,
        throws=[('string', lambda c: c.a(0) == 0), unknown],
        ensures=lambda c: [(n, f) for w in [Wv(c, lambda n: c.of_(c.result, 'Wavelet', n))] for n, f in [
            ('a wavelet with the given settings', z3.And(c.result != 0, w.base == c.a(0), w.count == c.a('count'), w.L == c.a('max_lenght'), w.mn == c.a('min_lenght'))),
            ('one row per scale, one sample per position', w.built()), ('logarithmic scales', z3.Implies(ty(c) == LOG, w.log_scale())), ('samples of the base function', w.samples())]]))
    def window(c):
        it = c.a(0); v = c.X.read(c.pre, it.loc)
        return it.idx, v
    def ready(c):
        w = here(c); i, v = window(c); return [('the wavelet was built or is empty', z3.Or(w.empty(), z3.And(w.built(), w.count > 0))), ('the window lies inside the data', z3.Or(w.empty(), i + w.L <= c.len(v))), ('sizes', z3.And(w.L >= 0, w.count >= 0))]
    def transformed(c):
        w = here(c); i, v = window(c)
        return mapvec(c, VR, w.count, lambda s: w.modulus(s, lambda j: c.at(v, i + j)))
    reg.add(Contract(W + 'transform', requires=ready, throws=[('string', lambda c: here(c).empty())], iters={'data_begin': ('data', VR)}, returns=transformed))
    def cw(c): return Wv(c, lambda n: c.of(c.a('wavelet'), 'Wavelet', n))
    def pre(c):
        w = cw(c)
        return [('a wavelet is given', c.a('wavelet') != 0), ('the wavelet was built or is empty', z3.Or(w.empty(), z3.And(w.built(), w.count > 0))), ('a positive step', c.a('step') >= 1), ('sizes', z3.And(w.L >= 2, w.count >= 0, c.len(c.a(0)) < 2**59))]
    def padded(c):
        n = c.len(c.a(0)); return lambda q: z3.If(z3.And(0 <= q, q < n), c.at(c.a(0), q), R(0))
    def rows(c, v, K):
        w = cw(c); p = padded(c); step = c.a('step')
        return forall_range(I(0), K, lambda k: z3.And(c.len(c.at(v, k, VVR)) == w.count, forall_range(I(0), w.count, lambda s: c.at(c.at(v, k, VVR), s) == w.modulus(s, lambda j: p(k * step + j - w.L / 2)))))
    def post(c):
        n = c.len(c.a(0)); K = c.len(c.result, VVR); s = c.a('step')
        return [('one row for each step-th position', z3.And(forall_range(I(0), K, lambda k: k * s < n), K * s >= n, z3.Implies(n == 0, K == 0))), ('row k correlates the window centred on position k*step', rows(c, c.result, K))]
    for n in (3, 4):
        reg.add(Contract(D + 'ContiniousWaveletTransformation', nparams=n, requires=pre, throws=[('string', lambda c: z3.And(cw(c).empty(), c.len(c.a(0)) > 0))], ensures=post))
