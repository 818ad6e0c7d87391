// SOURCES: src/dsp/transform/wavelet/linear_scale.cpp src/dsp/transform/wavelet/logarithmic_scale.cpp
#include "h.h"
#include <stdexcept>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace h; using namespace k52::dsp;
static void linear(double a, double b, size_t n) {
    begin("LinearScale(" + str(a) + ", " + str(b) + ", " + str(n) + ")");
    bool bad = a <= 0 || b <= 0 || a >= b || n < 2;
    if (bad) { expect(throws<std::invalid_argument>([&] { LinearScale s(a, b, n); }), "bad bounds are refused"); return; }
    try {
        LinearScale s(a, b, n); std::vector<double> v = s.GetScales();
        if (!expect(v.size() == n, "as many values as asked for")) return;
        for (size_t i = 0; i < n; ++i) { if (!expect(near(v[i], a + i * (b - a) / (double)(n - 1), 1e-11), "point " + str(i))) break; if (i && !expect(v[i] > v[i - 1], "increasing")) break; }
        expect(near(v[0], a, 1e-12) && near(v[n - 1], b, 1e-11), "ends"); expect(s.GetScales() == v, "same values again");
    } catch (const std::exception& e) { fail(std::string("refused: ") + e.what()); }
}
static void logarithmic(int a, int b) {
    begin("LogarithmicScale(" + str(a) + ", " + str(b) + ")");
    if (a >= b) { expect(throws<std::invalid_argument>([&] { LogarithmicScale s(a, b); }), "bad exponents are refused"); return; }
    try {
        LogarithmicScale s(a, b); std::vector<double> v = s.GetScales();
        if (!expect(v.size() == (size_t)(b - a + 1), "one value per exponent")) return;
        for (int i = 0; i <= b - a; ++i) if (!expect(near(v[i] / std::ldexp(1.0, a + i), 1.0, 1e-12) && v[i] > 0, "value " + str(i) + " is 2^(a+i)")) break;
    } catch (const std::exception& e) { fail(std::string("refused: ") + e.what()); }
}
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    const double xs[] = {-3, -1e-9, 0, 1e-9, 0.25, 1, 1.5, 2, 10, 1000, 1e6};
    for (double a : xs) for (double b : xs) for (size_t n : {0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64, 100}) linear(a, b, n);
    for (int i = 0; i < (thorough ? 4000 : 800); ++i) { double a = r.real(0.001, 20); linear(a, a + r.real(0.01, 50), r.in(2, 300)); }
    for (int a = -30; a <= 30; ++a) for (int b = -30; b <= 30; ++b) logarithmic(a, b);
    for (int i = 0; i < 300; ++i) { int a = r.in(-900, 900); logarithmic(a, a + r.in(0, 100)); }
    logarithmic(-1000, 1000); logarithmic(0, 1023); logarithmic(-1022, 0);
    return done();
}
