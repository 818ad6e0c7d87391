// SOURCES: src/dsp/haar_wavelet_function.cpp src/dsp/mhat_wavelet_function.cpp src/dsp/morlet_wavelet_function.cpp src/dsp/spline_based_wavelet_function.cpp src/dsp/akima_wavelet_function.cpp src/dsp/akima_spline.cpp src/common/constants.cpp
#include "h.h"
#include <stdexcept>
#include <limits>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/akima_wavelet_function.h>
using namespace h; using namespace k52::dsp;
static const double PI_ = std::acos(-1.0);
static cx haar(double t) {
    double re = t >= -0.5 && t < 0 ? -1 : t > 0 && t <= 0.5 ? 1 : 0, im = t >= -0.25 && t < 0.25 ? -1 : t > 0.25 && t <= 0.75 ? 1 : 0;
    return cx(re, im);
}
static cx mhat(double t) { double q = t / 3; return cx(2 / std::sqrt(9.0) * std::pow(PI_, 0.25) * (1 - q * q) * std::exp(-q * q / 2), 0); }
static cx morlet(double t) { double g = std::exp(-t * t / 2); return cx(g * std::cos(5 * t), g * std::sin(5 * t)); }
template <class W, class F> void check(const char* name, W& w, F f, const std::vector<double>& ts, double tol) {
    for (size_t i = 0; i < ts.size(); ++i) {
        begin(std::string(name) + "(" + str(ts[i]) + ")"); cx v = w.GetValue(ts[i]), e = f(ts[i]);
        expect(std::fabs(v.real() - e.real()) <= tol && std::fabs(v.imag() - e.imag()) <= tol, "value"); expect(w.GetValue(ts[i]) == v, "same value again");
    }
}
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    std::vector<double> ts;
    for (int i = -400; i <= 400; ++i) { double t = i / 40.0; ts.push_back(t); ts.push_back(std::nextafter(t, 1e9)); ts.push_back(std::nextafter(t, -1e9)); }
    for (int i = 0; i < (thorough ? 200000 : 5000); ++i) ts.push_back(r.real(-12, 12));
    double big[] = {1e-300, -1e-300, 30, -30, 100, -100, 1e6, -1e6}; for (double t : big) ts.push_back(t);
    HaarWaveletFunction ha; MhatWaveletFunction mh; MorletWaveletFunction mo;
    check("Haar", ha, haar, ts, 0); check("Mhat", mh, mhat, ts, 1e-12); check("Morlet", mo, morlet, ts, 1e-12);
    for (int k = 0; k < (thorough ? 3000 : 600); ++k) {
        int n = k < 60 ? 3 + k : r.in(3, 200); std::vector<double> v(n), im(n); for (double& x : v) x = r.flip() ? r.real(-5, 5) : r.in(-2, 2);
        begin("AkimaWavelet(" + str(v) + ")"); 
        try {
            AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(v, im);
            for (int round = 0; round < 2; ++round) for (int i = 0; i < n; ++i) { double t = -4 + 8.0 / n * i; cx g = w->GetValue(t); if (!expect(std::fabs(g.real() - v[i]) < 1e-8 && g.imag() == 0, "value " + str(i))) break; }
            expect(std::fabs(w->GetValue(4).real()) < 1e-8, "zero at the right end");
            double out[] = {std::nextafter(4.0, 5.0), 4 + 4.0 / n, 5, 100, std::nextafter(-4.0, -5.0), -4 - 4.0 / n, -4 - 8.0 / n, -5, -100};
            for (double t : out) if (!expect(w->GetValue(t) == cx(0, 0), "zero outside, at " + str(t))) break;
            for (int i = 0; i < 50; ++i) { double t = r.real(-4, 4); cx g = w->GetValue(t); if (!expect(g == w->GetValue(t) && std::isfinite(g.real()), "finite and repeatable at " + str(t))) break; }
        } catch (const std::exception& e) { fail(std::string("exception: ") + e.what()); }
    }
    return done();
}
