// SOURCES: src/common/*.cpp src/dsp/transform/fourier_transform.cpp src/dsp/transform/inverse_fourier_transform.cpp
#include "h.h"
#include "dft.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
using namespace h;
struct Reference : k52::dsp::IFourierTransform { std::vector<cx> Transform(const std::vector<cx>& x) const { return dft(x); } };
static void check(const std::vector<cx>& x, k52::dsp::IFourierTransform::shared_ptr own, k52::dsp::IFourierTransform::shared_ptr ref) {
    begin("length " + str(x.size()) + " sequence " + str(x));
    std::vector<cx> in = x, y = own->Transform(in), e = dft(x);
    expect(in == x, "input not modified"); expect(same(y, e), "forward transform");
    k52::dsp::InverseFourierTransform a(own), b(ref);
    std::vector<cx> s = e; std::vector<cx> back = b.Transform(s);
    expect(s == e, "inverse input not modified"); expect(same(back, x), "inverse over a reference transform");
    expect(same(a.Transform(y), x), "inverse(forward(x)) = x"); expect(same(a.Transform(x), idft(x)), "inverse transform");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    k52::dsp::IFourierTransform::shared_ptr own(new k52::dsp::FourierTransform()), ref(new Reference());
    for (int n = 0; n < (thorough ? 220 : 90); ++n) { std::vector<cx> x(n); for (cx& z : x) z = r.c(); check(x, own, ref);
        if (n && n < 20) for (int p = 0; p < n; ++p) { std::vector<cx> d(n); d[p] = cx(0, 1); check(d, own, ref); d[p] = 1; check(d, own, ref); } }
    for (int n : {128, 200, 256, 360}) { std::vector<cx> x(n); for (cx& z : x) z = r.c(1000); check(x, own, ref); for (cx& z : x) z = cx(z.real(), 0); check(x, own, ref); }
    return done();
}
