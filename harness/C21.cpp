// SOURCES: src/dsp/wavelet.cpp src/dsp/cwt.cpp src/dsp/mhat_wavelet_function.cpp src/dsp/morlet_wavelet_function.cpp src/common/constants.cpp
#include "h.h"
#include <algorithm>
#include <k52/dsp/cwt.h>
using namespace h; using namespace k52::dsp;
typedef std::vector<double> V;
// a base function that grows with its argument: wrong samples show
struct Poly : IWavelet { cx GetValue(double t) { return cx(t * 0.25 + 0.5, std::sin(t) - t / 8); } };
struct Plain : Wavelet { Plain() {} };
struct Progress { V* v; void operator()(double p) { v->push_back(p); } };
template <class F> static bool refuses(F f) { try { f(); } catch (...) { return true; } return false; }
static V reference(const V& x, long start, IWavelet& w, int mn, int L, int count, const V& scales) {
    V out(count);
    for (int i = 0; i < count; ++i) {
        double a = 0, b = 0;
        for (int j = 0; j < L; ++j) {
            double t = (j - L / 2.0) * scales[i] * 4 / (L / 2), y = start + j >= 0 && start + j < (long)x.size() ? x[start + j] : 0; cx g = w.GetValue(t);
            a += g.real() * y; b += g.imag() * y;
        }
        out[i] = std::sqrt(a * a + b * b);
    }
    return out;
}
static V logs(int mn, int L, int count) { V s(count); for (int i = 0; i < count; ++i) s[i] = std::exp(i / (double)count * std::log((double)L / mn)); return s; }
static V lins(int mn, int L, int count) { V s(count); for (int i = 0; i < count; ++i) s[i] = (i + 1) / (double)count * (L / mn); return s; }
static bool near_v(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], 1e-8)) return false; return true; }
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    Wavelet::shared_ptr none;
    { begin("no base function"); expect(refuses([] { Wavelet::BuildWavelet(IWavelet::shared_ptr(), 2, 8, 3); }), "refused"); }
    { begin("transform before the wavelet was built"); Plain p; V d(2000); expect(refuses([&] { p.transform<double>(d.begin()); }), "refused"); }
    { begin("failed creation"); Plain p; expect(refuses([&] { p.createWavelet(); }), "creation refused"); V d(2000); expect(refuses([&] { p.transform<double>(d.begin()); }), "transform refused"); }
    for (int k = 0; k < (thorough ? 3000 : 700); ++k) {
        int L = k < 40 ? 2 + k % 20 : r.in(2, 40), mn = r.in(1, 12), count = r.in(1, 6), n = r.in(0, 50), step = r.in(1, 5); bool lin = k % 4 == 3;
        if (lin && L / mn == 0) mn = 1;
        IWavelet::shared_ptr f; int kind = r.in(0, 2); if (kind == 0) f.reset(new Poly); else if (kind == 1) f.reset(new MhatWaveletFunction); else f.reset(new MorletWaveletFunction);
        V x(n); for (double& y : x) y = r.real(-5, 5);
        begin("min " + str(mn) + " max " + str(L) + " count " + str(count) + " step " + str(step) + " linear " + str(lin) + " kind " + str(kind) + " x=" + str(x));
        try {
            Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, mn, L, count, lin ? Wavelet::Linear : Wavelet::Log);
            V s = lin ? lins(mn, L, count) : logs(mn, L, count);
            if (r.flip()) w->createWavelet(lin ? Wavelet::Linear : Wavelet::Log);
            // every window of the plain data
            for (int i = 0; i + L <= n; ++i) { V got = w->transform<double>(x.begin() + i); if (!expect(near_v(got, reference(x, i, *f, mn, L, count, s)), "window at " + str(i))) break; }
            V seen; Progress p = {&seen};
            std::vector<V> rows = ContiniousWaveletTransformation(x, w, step), rows2 = ContiniousWaveletTransformation(x, w, step, p);
            size_t want = (n + step - 1) / step;
            if (!expect(rows.size() == want && rows2.size() == want, "one row for each step-th position")) continue;
            for (size_t q = 0; q < want; ++q) {
                V e = reference(x, (long)q * step - L / 2, *f, mn, L, count, s);
                if (!expect(near_v(rows[q], e), "row " + str(q)) || !expect(near_v(rows2[q], e), "row " + str(q) + " with progress")) break;
            }
        } catch (...) { fail("exception"); }
    }
    return done();
}
