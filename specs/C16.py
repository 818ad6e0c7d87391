from .base import *
from .C15 import add_transform, add_inverse, dft, dft_vec, inverse_at
FILES = ['src/dsp/transform/circular_convolution.cpp', 'src/dsp/transform/fourier_based_circular_convolution.cpp', 'src/dsp/transform/inverse_fourier_transform.cpp',
         'src/dsp/transform/fourier_transform.cpp', 'src/common/helpers.cpp', 'src/common/constants.cpp']
def conv_at(a, b, N):
    """element n of the circular convolution"""
    return lambda n: csum(lambda m: cmul(a(m), b(z3.If(m <= n, n - m, N + n - m))), 0, N)
def conv_vec(c):
    N = c.len(c.a(0), VC)
    return mapvec(c, VC, N, conv_at(lambda i: c.at(c.a(0), i, VC), lambda i: c.at(c.a(1), i, VC), N))
def product_of_spectra(c):
    a, b = c.a(0), c.a(1); N = c.len(a, VC)
    A, B = dft(lambda n: c.at(a, n, VC), N), dft(lambda n: c.at(b, n, VC), N)
    v = mapvec(c, VC, N, lambda k: cmul(A(k), B(k)))
    return mapvec(c, VC, N, inverse_at(c, v))
def add_convolutions(reg):
    differ = [('runtime_error', lambda c: c.len(c.a(0), VC) != c.len(c.a(1), VC))]
    reg.add(Contract('k52::dsp::CircularConvolution::EvaluateConvolution', throws=differ, returns=conv_vec))
    reg.add(Contract('k52::dsp::FourierBasedCircularConvolution::EvaluateConvolution', throws=differ, returns=product_of_spectra,
        requires=lambda c: [('a transform is given', z3.And(c.f('fourier_transform_') != 0, dict_inv(c) != 0))]))
    reg.add(Contract('k52::dsp::FourierBasedCircularConvolution::FourierBasedCircularConvolution', nparams=1, sig='shared_ptr', modifies=lambda c: [c.obj],
        ensures=lambda c: [('both directions use the given transform', z3.And(c.f_('fourier_transform_') == c.a(0), dict_inv_(c) == c.a(0)))]))
def dict_inv(c):
    t = c.ft('inverse_fourier_transform_'); return c.ctx.rget(t, c.f('inverse_fourier_transform_'), 'fourier_transform_')
def dict_inv_(c):
    t = c.ft('inverse_fourier_transform_'); return c.ctx.rget(t, c.f_('inverse_fourier_transform_'), 'fourier_transform_')
def build(reg, P):
    add_conjugate(reg); add_transform(reg); add_inverse(reg); add_convolutions(reg)
