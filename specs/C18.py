from .base import *
from .C16 import conv_at
from .C01 import add_cache, View, anyk, usage_ok
FILES = ['src/dsp/transform/wavelet/fast_wavelet_transform.cpp', '/verif/drivers/cache.cpp', 'src/common/constants.cpp']
W = 'k52::dsp::FastWaveletTransform::'
psi_re = z3.Function('psi_re', z3.IntSort(), z3.RealSort(), z3.RealSort()); psi_im = z3.Function('psi_im', z3.IntSort(), z3.RealSort(), z3.RealSort())
def psi(w, t): return cx(psi_re(w, t), psi_im(w, t))
def scaled(w, s, t):
    v = psi(w, t / s); q = f_sqrt(s); return cx(cre(v) / q, cim(v) / q)
def sample(w, s, N): return lambda n: conj(scaled(w, s, -(z3.ToReal(n) - z3.ToReal(N) / 2)))
def samples(c, w, s, N): return mapvec(c, VC, N, sample(w, s, N))
def row(c, x, w, s):
    N = c.len(x, VC)
    return mapvec(c, VC, N, conv_at(lambda i: c.at(x, i, VC), sample(w, s, N), N))
def rotated(c, x, w, s):
    N = c.len(x, VC); h = N / 2; f = conv_at(lambda i: c.at(x, i, VC), sample(w, s, N), N)
    return mapvec(c, VC, N, lambda n: f(z3.If(n + h < N, n + h, n + h - N)))
def cache_in(X, st, obj):
    """the cache of a transform in a state: its reference and contents"""
    l = X.field(st, obj, 'cache_'); r = X.read(st, l)
    m = X.field(st, Loc(('O', r), (), T('rec', l.t.a)), 'cache_map_')
    class C: ctx = X.ctx
    return r, View(C, X.read(st, m), m.t)
def key_parts(v, k):
    t = v.t.args[0]; return [v.ctx.rget(t, k, n) for n, _ in v.ctx.recfields(t)]
def consistent_in(X, st, obj):
    """every cached entry holds the samples its key asks for"""
    r, v = cache_in(X, st, obj)
    def ok(k):
        w, s, N = key_parts(v, k)
        return z3.Implies(v.has(k), X.ctx.eq(VC, v.value(k), X.ctx.mkvec(VC, N, lam(z3.IntSort(), sample(w, s, N)))))
    return z3.Implies(r != 0, anyk(v, ok))
def inv(c, post=False): return [('every cached entry holds the samples its key asks for', consistent_in(c.X, c.post if post else c.pre, c.obj))]
def room_in(X, st, obj, n, u):
    r, v = cache_in(X, st, obj)
    return z3.Implies(r != 0, z3.And(v.size() >= 0, v.size() <= n, anyk(v, lambda k: z3.Implies(v.dom(k), z3.And(v.usage(k) >= 0, v.usage(k) <= u)))))
def room(c, n=2**41, u=2000000000): return [('the cache is not about to overflow its counters', room_in(c.X, c.pre, c.obj, n, u))]
def grows(c):
    """the size and the counters of the cache grow by at most two and one"""
    r, a = cache_in(c.X, c.pre, c.obj); _, b = cache_in(c.X, c.post, c.obj)
    return [('the cache grows by at most two entries', z3.Implies(r != 0, z3.And(b.size() >= 0, b.size() <= a.size() + 2))),
            ('read counters grow by at most one', z3.Implies(r != 0, anyk(a, lambda k: z3.Implies(b.dom(k), z3.Or(z3.And(b.usage(k) == 0), z3.And(a.dom(k), b.usage(k) >= a.usage(k), b.usage(k) <= a.usage(k) + 1))))))]
def touched(c):
    r = c.f('cache_'); ck = c.ft('cache_').a
    return [c.X.field(c.pre, c.objloc(r, ck), 'cache_map_')]
def fft_ctor(reg):
    reg.add(Contract('k52::dsp::FastFourierTransform::FastFourierTransform', nparams=1, sig='(size_t)', assumed=True, note='verified in C17', modifies=lambda c: [c.obj], throws=[('invalid_argument', lambda c: c.a(0) <= 0)]))
    reg.add(Contract('k52::dsp::FourierBasedCircularConvolution::FourierBasedCircularConvolution', nparams=1, sig='shared_ptr', assumed=True, note='verified in C16', modifies=lambda c: [c.obj]))
def build(reg, P):
    add_cache(reg)
    reg.ghost_fields[('k52::dsp::IScale', '$scales')] = VR
    reg.add(Contract('k52::dsp::IWavelet::GetValue', assumed=True, note='a wavelet is a function of its argument (C26 verifies the ones of the library)', returns=lambda c: psi(c.this, c.a(0))))
    reg.add(Contract('k52::dsp::IScale::GetScales', assumed=True, note='a scale object always gives the same list (C19 verifies the ones of the library)', returns=lambda c: c.of(c.this, 'k52::dsp::IScale', '$scales')))
    reg.add(Contract('k52::dsp::ICircularConvolution::EvaluateConvolution', assumed=True, note='the circular convolution (C16), refused for sequences of other sizes than the transform was made for',
        throws=[('runtime_error', lambda c: c.len(c.a(0), VC) != c.len(c.a(1), VC))], may_throw=['invalid_argument'],
        returns=lambda c: mapvec(c, VC, c.len(c.a(0), VC), conv_at(lambda i: c.at(c.a(0), i, VC), lambda i: c.at(c.a(1), i, VC), c.len(c.a(0), VC)))))
    given = lambda c: [('a wavelet is given', c.a('wavelet') != 0)]
    reg.add(Contract(W + 'GetScaledWaveletValue', internal=True, requires=lambda c: given(c) + [('the scale is positive', c.a('scale') > 0)], returns=lambda c: scaled(c.a(0), c.a(1), c.a(2))))
    reg.add(Contract(W + 'CalculateWaveletSamplesForConvolution', internal=True, requires=lambda c: given(c) + [('the scale is positive', c.a('scale') > 0)], returns=lambda c: samples(c, c.a(0), c.a(1), c.a(2))))
    reg.add(Contract(W + 'GetWaveletSamplesForConvolution', internal=True, requires=lambda c: given(c) + [('the scale is positive', c.a('scale') > 0)] + inv(c) + room(c), modifies=touched, on_throw='modifies', may_throw=['runtime_error'],
        returns=lambda c: samples(c, c.a(0), c.a(1), c.a(2)), ensures=lambda c: inv(c, True) + grows(c), throw_ensures=lambda c: inv(c, True)))
    conv_given = lambda c: [('a convolution is set', c.f('i_circular_convolution_') != 0)]
    reg.add(Contract(W + 'TransformOneScale', requires=lambda c: given(c) + inv(c) + room(c) + conv_given(c), modifies=touched, on_throw='modifies', may_throw=['runtime_error', 'invalid_argument'],
        throws=[('invalid_argument', lambda c: c.a(2) <= 0)],
        returns=lambda c: row(c, c.a(0), c.a(1), c.a(2)), ensures=lambda c: inv(c, True) + grows(c), throw_ensures=lambda c: inv(c, True)))
    def loop(info):
        if not info.qual.endswith('::Transform'): return []
        n0 = 2**40; u0 = 1000000000
        return [('the cache stays consistent', lambda v: consistent_in(v.X, v.st, v.st.this)),
                ('the cache has room', lambda v: room_in(v.X, v.st, v.st.this, n0 + 2 * v.k, u0 + v.k))]
    def scales(c): return c.of(c.f('i_scale_'), 'k52::dsp::IScale', '$scales')
    reg.add(Contract(W + 'Transform', requires=lambda c: given(c) + inv(c) + room(c, 2**40, 1000000000) + conv_given(c) + [('scales are given', c.f('i_scale_') != 0), ('fewer than 2^29 scales', c.len(scales(c)) < 2**29)],
        modifies=touched, on_throw='modifies', may_throw=['runtime_error', 'invalid_argument'], loops=[loop],
        ensures=lambda c: inv(c, True) + [('one row per scale', c.len(c.result, VVC) == c.len(scales(c))),
            ('every scale is positive', forall_range(I(0), c.len(scales(c)), lambda r: c.at(scales(c), r) > 0)),
            ('every row is the rotated convolution with the wavelet of its scale', forall_range(I(0), c.len(scales(c)), lambda r: c.eq(VC, c.at(c.result, r, VVC), rotated(c, c.a(0), c.a(1), c.at(scales(c), r)))))],
        throw_ensures=lambda c: inv(c, True)))
    fft_ctor(reg)
    reg.add(Contract(W + 'FastWaveletTransform', allocates=True, modifies=lambda c: [c.obj], throws=[('invalid_argument', lambda c: c.a(1) <= 0)], 
        ensures=lambda c: [('keeps the scales', c.f_('i_scale_') == c.a(0)), ('has a convolution', c.f_('i_circular_convolution_') != 0), ('has a cache exactly for a positive limit', (c.f_('cache_') != 0) == (c.a(2) > 0))] + inv(c, True)))
