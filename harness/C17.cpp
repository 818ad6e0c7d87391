// SOURCES: src/dsp/transform/fast_fourier_transform.cpp
// LIBS: -lfftw3 -lboost_thread -lboost_system -lpthread
#include "h.h"
#include "dft.h"
#include <stdexcept>
#include <thread>
#include <memory>
#include <k52/dsp/transform/fast_fourier_transform.h>
using namespace h; using namespace k52::dsp;
static std::vector<cx> seq(Rng& r, int n) { std::vector<cx> x(n); for (cx& z : x) z = r.c(); return x; }
static void one(FastFourierTransform& f, const std::vector<cx>& x, const char* what) { begin(std::string(what) + " size " + str(x.size()) + " x=" + str(x)); std::vector<cx> x0 = x; std::vector<cx> y; try { y = f.Transform(x); } catch (...) { fail("refused"); return; } expect(same(y, dft(x)), "transform"); expect(x == x0, "input not modified"); }
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    begin("size 0"); for (int i = 0; i < 3; ++i) expect(throws<std::invalid_argument>([&] { FastFourierTransform f(0); }), "size zero is refused");
    for (int n = 1; n <= (thorough ? 120 : 48); ++n) {
        FastFourierTransform f(n); one(f, seq(r, n), "first"); one(f, seq(r, n), "second");
        for (int p = 0; p < n && n < 12; ++p) { std::vector<cx> d(n); d[p] = cx(0, 1); one(f, d, "impulse"); }
        one(f, std::vector<cx>(n), "zero after others");
        for (int m : {0, n - 1, n + 1, 2 * n}) if (m != n) { begin("size " + str(n) + " given " + str(m)); expect(throws<std::invalid_argument>([&] { f.Transform(seq(r, m)); }), "other lengths are refused"); }
        one(f, seq(r, n), "after a refusal");
    }
    // several transforms alive, created and destroyed in any order, also after failed constructions
    std::vector<std::unique_ptr<FastFourierTransform> > fs(6); std::vector<int> sz(6);
    for (int i = 0; i < 150; ++i) { int k = r.in(0, 5); if (r.in(0, 2) == 0 || !fs[k]) { fs[k].reset(); sz[k] = r.in(1, 20); if (r.in(0, 3) == 0) throws<std::invalid_argument>([&] { FastFourierTransform z(0); }); begin("creating size " + str(sz[k])); fs[k].reset(new FastFourierTransform(sz[k])); } one(*fs[k], seq(r, sz[k]), "one of several"); }
    begin("creating, using and destroying transforms in 4 threads");
    bool ok[4] = {true, true, true, true}; std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.push_back(std::thread([t, &ok] { Rng q(t + 77); for (int i = 0; i < 12; ++i) { int n = q.in(1, 12); FastFourierTransform f(n); std::vector<cx> x = seq(q, n); if (!same(f.Transform(x), dft(x))) ok[t] = false; } }));
    for (auto& t : ts) t.join(); expect(ok[0] && ok[1] && ok[2] && ok[3], "transforms in several threads");
    return done();
}
