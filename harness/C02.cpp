// SOURCES: src/optimization/params/int_parameter.cpp src/optimization/params/const_chromosome_size_paremeters.cpp src/optimization/params/discrete_parameters.cpp src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <climits>
#include <memory>
#include <k52/optimization/params/int_parameter.h>
using namespace h; using k52::optimization::IntParameter; typedef std::vector<bool> Ch;
static size_t bits(long long d) { size_t n = 0; while (d >> n) ++n; return n; }
static void one(Rng& r, int v, int lo, int hi) {
    begin("value " + str(v) + " of [" + str(lo) + ", " + str(hi) + "]");
    long long d = (long long)hi - lo; size_t n = bits(d);
    IntParameter p(v, lo, hi);
    if (!expect(p.get_value() == v && p.get_min_value() == lo && p.get_max_value() == hi, "constructed as asked")) return;
    if (!expect(p.GetChromosomeSize() == n, "smallest chromosome size")) return;
    expect(p.CheckConstraints() == (lo <= v && v <= hi), "constraint check");
    IntParameter q(lo, hi); if (!expect(q.get_value() == lo && q.GetChromosomeSize() == n, "default value")) return;
    if (v < lo || v > hi) return;
    size_t before = r.in(0, 3), after = r.in(0, 3); Ch c(before + n + after); for (size_t i = 0; i < c.size(); ++i) c[i] = r.flip(); Ch old = c;
    p.SetChromosome(c.begin() + before, c.begin() + before + n);
    for (size_t i = 0; i < c.size(); ++i) {
        bool in = i >= before && i < before + n;
        if (!expect(c[i] == (in ? ((((long long)v - lo) >> (i - before)) & 1) != 0 : (bool)old[i]), "gene " + str(i))) return;
    }
    const Ch& k = c; q.SetFromChromosome(k.begin() + before, k.begin() + before + n); expect(q.get_value() == v, "decoded value");
    p.set_value(lo); p.SetFromChromosome(k.begin() + before, k.begin() + before + n); expect(p.get_value() == v, "decoded into itself");
    std::unique_ptr<IntParameter> cl(p.Clone());
    expect(cl.get() != &p && cl->get_value() == v && cl->get_min_value() == lo && cl->get_max_value() == hi && cl->GetChromosomeSize() == n, "clone");
    cl->set_value(lo); expect(p.get_value() == v, "clone independent");
    // other sizes
    size_t m = r.flip() ? n + 1 + r.in(0, 3) : n ? r.in(0, (int)n - 1) : 1; Ch w(m); for (size_t i = 0; i < m; ++i) w[i] = r.flip(); Ch w0 = w; const Ch& wk = w;
    expect(throws<std::invalid_argument>([&] { p.SetChromosome(w.begin(), w.end()); }) && w == w0, "size " + str(m) + " refused when encoding");
    expect(throws<std::invalid_argument>([&] { p.SetFromChromosome(wk.begin(), wk.end()); }) && p.get_value() == v, "size " + str(m) + " refused when decoding");
    // every pattern decodes to the integer with those bits
    Ch any(n); long long x = 0; for (size_t i = 0; i < n; ++i) { any[i] = r.flip(); if (any[i]) x |= 1ll << i; }
    const Ch& ak = any; if (lo + x <= INT_MAX) { p.SetFromChromosome(ak.begin(), ak.end()); expect(p.get_value() == lo + x, "pattern decodes to its integer"); expect(p.CheckConstraints() == (lo + x <= hi), "check after decoding"); }
}
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    for (int lo = -9; lo < 9; ++lo) for (int hi = lo; hi < lo + 20; ++hi) for (int v = lo - 2; v <= hi + 2; ++v) one(r, v, lo, hi);
    for (int k = 0; k <= 30; ++k) for (int e = -2; e <= 2; ++e) {
        long long d = (1ll << k) + e; if (d < 0 || d > 1 << 30) continue;
        int los[] = {0, 1, -1, -5, INT_MIN, (int)(INT_MAX - d), (int)(-d / 2), (int)-d};
        for (int j = 0; j < 8; ++j) { if ((long long)los[j] + d > INT_MAX) continue; int hi = (int)(los[j] + d); one(r, los[j], los[j], hi); one(r, hi, los[j], hi); one(r, (int)(los[j] + d / 2), los[j], hi); one(r, r.in(los[j], hi), los[j], hi); }
    }
    for (int i = 0; i < (thorough ? 500000 : 30000); ++i) {
        long long d = (long long)(r.next() & ((1ull << r.in(1, 30)) - 1)); int lo = r.in(0, 3) ? r.in(-1000, 1000) : r.in(INT_MIN, 0); if (lo + d > INT_MAX) continue;
        one(r, (int)(lo + (long long)(r.next() % (uint64_t)(d + 1))), lo, (int)(lo + d));
    }
    return done();
}
