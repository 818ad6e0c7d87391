// SOURCES: src/common/*.cpp src/dsp/transform/*.cpp src/dsp/transform/wavelet/fast_wavelet_transform.cpp
// LIBS: -lfftw3 -lboost_thread -lboost_system -lpthread
#include "h.h"
#include "dft.h"
#include <stdexcept>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
using namespace h; using namespace k52::dsp;
struct Wave : IWavelet { double a, b; Wave(double a, double b) : a(a), b(b) {} std::complex<double> GetValue(double t) { return std::exp(cx(-t * t / (2 * a * a), b * t)) * cx(1 + 0.1 * t, 0.3 * b); } };
struct Scales : IScale { std::vector<double> v; std::vector<double> GetScales() const { return v; } };
static std::vector<cx> sample(IWavelet& w, double s, size_t N) { std::vector<cx> y(N); for (size_t n = 0; n < N; ++n) { double t = (double)n - N / 2.0; y[n] = std::conj(w.GetValue(-t / s)) / std::sqrt(s); } return y; }
static std::vector<cx> row(const std::vector<cx>& x, IWavelet& w, double s) { return conv(x, sample(w, s, x.size())); }
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    int rounds = thorough ? 60 : 16;
    for (int q = 0; q < rounds; ++q) for (int cached = 0; cached < 3; ++cached) {
        size_t N = q < 12 ? q + 1 : r.in(1, 70); double limit = cached == 0 ? -1 : cached == 1 ? 100 : 0.0003;   // the last one forces eviction or refusal
        boost::shared_ptr<Scales> sc(new Scales()); int m = r.in(0, 4); for (int i = 0; i < m; ++i) sc->v.push_back(r.flip() ? r.in(1, 4) : r.real(0.1, 5));
        if (m > 2) sc->v[2] = sc->v[0];
        FastWaveletTransform f(sc, N, limit);
        IWavelet::shared_ptr ws[3] = {IWavelet::shared_ptr(new Wave(1, 2)), IWavelet::shared_ptr(new Wave(2, 0.5)), IWavelet::shared_ptr(new Wave(1, 2))};
        for (int k = 0; k < 7; ++k) {
            IWavelet::shared_ptr w = ws[r.in(0, 2)]; std::vector<cx> x(N); for (cx& z : x) z = r.c(); std::vector<cx> x0 = x;
            std::ostringstream o; o << "N=" << N << " cache limit " << limit << " call " << k << " scales " << str(sc->v) << " x=" << str(x);
            if (r.flip()) { // a refused sequence of another length in between
                std::vector<cx> other(r.flip() ? N + 1 : 2 * N); double s = m ? sc->v[r.in(0, m - 1)] : 1; bool bad = false; begin(o.str() + " one scale of " + str(other.size()) + " elements " + str(s));
                try { f.TransformOneScale(other, w, s); } catch (const std::invalid_argument&) { bad = true; } catch (const std::runtime_error&) { bad = cached == 2; } catch (...) {} expect(bad, "another length is refused"); }
            begin(o.str());
            try {
                std::vector<std::vector<cx> > y = f.Transform(x, w);
                if (expect(y.size() == sc->v.size(), "one row per scale")) for (size_t i = 0; i < y.size(); ++i) { std::vector<cx> e = row(x, *w, sc->v[i]); std::rotate(e.begin(), e.begin() + N / 2, e.end()); expect(same(y[i], e), "row " + str(i)); }
            } catch (const std::runtime_error&) { expect(cached == 2, "refused"); } catch (...) { fail("refused"); }
            double s = r.flip() && m ? sc->v[0] : r.real(0.05, 6); begin(o.str() + " one scale " + str(s));
            try { expect(same(f.TransformOneScale(x, w, s), row(x, *w, s)), "one scale"); } catch (const std::runtime_error&) { expect(cached == 2, "refused"); } catch (...) { fail("refused"); }
            expect(x == x0, "input not modified");
            for (double z : {0.0, -1.0, -1e-9}) { begin(o.str() + " one scale " + str(z)); expect(throws<std::invalid_argument>([&] { f.TransformOneScale(x, w, z); }), "a scale that is not positive is refused"); }
            if (m) { double keep = sc->v[m - 1]; sc->v[m - 1] = -2; begin(o.str() + " with a negative scale"); bool bad = false; try { f.Transform(x, w); } catch (const std::invalid_argument&) { bad = true; } catch (const std::runtime_error&) { bad = cached == 2; } catch (...) {} expect(bad, "a negative scale is refused"); sc->v[m - 1] = keep; }
        }
    }
    return done();
}
