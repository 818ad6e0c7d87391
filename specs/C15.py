from .base import *
FILES = ['src/dsp/transform/fourier_transform.cpp', 'src/dsp/transform/inverse_fourier_transform.cpp', 'src/common/helpers.cpp', 'src/common/constants.cpp']

def twiddle(k, n, N):
    """exp(-2 pi i k n / N)"""
    x = -2 * PI * z3.ToReal(k) * z3.ToReal(n) / z3.ToReal(N)
    return cx(f_cos(x), f_sin(x))
def dft(at, N):
    """element k of the discrete Fourier transform of at(0..N-1)"""
    return lambda k: csum(lambda n: cmul(at(n), twiddle(k, n, N)), 0, N)
def dft_vec(c, v):
    N = c.len(v, VC)
    return mapvec(c, VC, N, dft(lambda n: c.at(v, n, VC), N))
def add_transform(reg):
    """the contract of the interface is the contract of every transform"""
    reg.add(Contract('k52::dsp::IFourierTransform::Transform', returns=lambda c: dft_vec(c, c.a(0))))
def inverse_at(c, v):
    N = c.len(v, VC)
    d = dft(lambda n: conj(c.at(v, n, VC)), N)
    return lambda k: cx(cre(d(k)) / z3.ToReal(N), -cim(d(k)) / z3.ToReal(N))
def add_inverse(reg):
    reg.add(Contract('k52::dsp::InverseFourierTransform::Transform',
        requires=lambda c: [('a transform is given', c.f('fourier_transform_') != 0)],
        returns=lambda c: mapvec(c, VC, c.len(c.a(0), VC), inverse_at(c, c.a(0)))))
    reg.add(Contract('k52::dsp::InverseFourierTransform::InverseFourierTransform', sig='shared_ptr', nparams=1,
        modifies=lambda c: [c.obj], ensures=lambda c: [('keeps the transform', c.f_('fourier_transform_') == c.a(0))]))
def build(reg, P):
    add_conjugate(reg); add_transform(reg); add_inverse(reg)
