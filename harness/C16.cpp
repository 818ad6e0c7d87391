// SOURCES: src/common/*.cpp src/dsp/transform/fourier_transform.cpp src/dsp/transform/inverse_fourier_transform.cpp src/dsp/transform/circular_convolution.cpp src/dsp/transform/fourier_based_circular_convolution.cpp
#include "h.h"
#include "dft.h"
#include <stdexcept>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
using namespace h; using namespace k52::dsp;
struct Reference : IFourierTransform { std::vector<cx> Transform(const std::vector<cx>& x) const { return dft(x); } };
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    ICircularConvolution::shared_ptr cs[] = {ICircularConvolution::shared_ptr(new CircularConvolution()),
        ICircularConvolution::shared_ptr(new FourierBasedCircularConvolution(IFourierTransform::shared_ptr(new FourierTransform()))),
        ICircularConvolution::shared_ptr(new FourierBasedCircularConvolution(IFourierTransform::shared_ptr(new Reference())))};
    const char* names[] = {"direct", "Fourier based", "Fourier based over a reference transform"};
    for (int k = 0; k < 3; ++k) {
        auto check = [&](const std::vector<cx>& a, const std::vector<cx>& b) {
            begin(std::string(names[k]) + " length " + str(a.size()) + " a=" + str(a) + " b=" + str(b));
            std::vector<cx> a0 = a, b0 = b; expect(same(cs[k]->EvaluateConvolution(a, b), conv(a, b)), "convolution"); expect(a == a0 && b == b0, "inputs not modified"); };
        for (int n = 0; n < (thorough ? 130 : 60); ++n) { std::vector<cx> a(n), b(n); for (cx& z : a) z = r.c(); for (cx& z : b) z = r.c(); check(a, b); check(a, a);
            if (n < 9) for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { std::vector<cx> d(n), e(n); d[p] = cx(1, 2); e[q] = cx(-3, 0.5); check(d, e); } }
        for (int n = 0; n < 12; ++n) for (int m = 0; m < 12; ++m) if (n != m) { begin(std::string(names[k]) + " lengths " + str(n) + " and " + str(m)); std::vector<cx> a(n), b(m); expect(throws<std::runtime_error>([&] { cs[k]->EvaluateConvolution(a, b); }), "different lengths are refused"); }
    }
    return done();
}
