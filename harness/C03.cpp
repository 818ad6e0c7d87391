// SOURCES: src/optimization/params/double_parameter.cpp src/optimization/params/int_parameter.cpp src/optimization/params/const_chromosome_size_paremeters.cpp src/optimization/params/discrete_parameters.cpp src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <memory>
#include <cmath>
#include <k52/optimization/params/double_parameter.h>
using namespace h; using k52::optimization::DoubleParameter; using k52::optimization::IntParameter; typedef std::vector<bool> Ch;
static void one(Rng& r, double v, double lo, double hi, double step) {
    begin("value " + str(v) + " of [" + str(lo) + ", " + str(hi) + "] step " + str(step));
    bool bad = hi <= lo || v < lo || v > hi || step < 0 || !(step > 0);
    if (bad) { expect(throws<std::invalid_argument>([&] { DoubleParameter p(v, lo, hi, step); }), "refused"); return; }
    DoubleParameter p(v, lo, hi, step); size_t n = p.GetChromosomeSize(); double a = p.get_actual_precision(), M = std::pow(2.0, (double)n) - 1, slack = 1e-9 * ((hi - lo) / M + std::fabs(lo) + std::fabs(hi));
    if (!expect(n >= 1 && n <= 30 && p.get_min_value() == lo && p.get_max_value() == hi, "keeps the interval")) return;
    if (!expect(a > 0 && a <= step * (1 + 1e-12), "step no larger than asked") || !expect(std::fabs(a * M + lo - hi) <= slack, "equal steps from min to max")) return;
    if (!expect(std::fabs(p.GetValue() - v) <= a / 2 + slack && p.CheckConstraints(), "starts within half a step")) return;
    for (int k = 0; k < 6; ++k) {
        double w = k == 0 ? lo : k == 1 ? hi : k == 2 ? hi - r.unit() * a : lo + r.unit() * (hi - lo); if (w < lo || w > hi) continue;
        p.SetValue(w); double g = p.GetValue();
        if (!expect(std::fabs(g - w) <= a / 2 + slack, "nearest step to " + str(w)) || !expect(g >= lo && g <= hi && p.CheckConstraints(), "inside the interval after setting " + str(w))) return;
        double q = (g - lo) / a; if (!expect(std::fabs(q - std::floor(q + 0.5)) <= 1e-6 * (1 + std::fabs(lo) / a * 1e-9), "on the grid")) return;
        p.SetValue(g); if (!expect(p.GetValue() == g, "setting its own value changes nothing")) return;
        size_t b = r.in(0, 3), e = r.in(0, 3); Ch c(b + n + e); for (size_t i = 0; i < c.size(); ++i) c[i] = r.flip(); Ch old = c;
        p.SetChromosome(c.begin() + b, c.begin() + b + n); for (size_t i = 0; i < c.size(); ++i) if (i < b || i >= b + n) if (!expect(c[i] == old[i], "nothing outside the slice")) return;
        const Ch& ck = c; std::unique_ptr<DoubleParameter> cl(p.Clone());
        if (!expect(cl.get() != &p && cl->GetValue() == g && cl->get_min_value() == lo && cl->get_max_value() == hi && cl->get_actual_precision() == a && cl->GetChromosomeSize() == n, "clone") || !expect(p.HasSameMetaParameters(cl.get()) && cl->HasSameMetaParameters(&p), "clone has the same meta parameters")) return;
        cl->SetValue(lo + r.unit() * (hi - lo)); if (!expect(p.GetValue() == g, "clone independent")) return;
        cl->SetFromChromosome(ck.begin() + b, ck.begin() + b + n); if (!expect(cl->GetValue() == g, "decoding what was encoded")) return;
        p.SetFromChromosome(ck.begin() + b, ck.begin() + b + n); if (!expect(p.GetValue() == g, "decoding into itself")) return;
        Ch any(n); double x = 0; int t = r.in(0, 3); for (size_t i = 0; i < n; ++i) { any[i] = t == 0 || (t > 1 && r.flip()); if (any[i]) x += std::pow(2.0, (double)i); }
        const Ch& ak = any; p.SetFromChromosome(ak.begin(), ak.end()); g = p.GetValue();
        if (!expect(g >= lo && g <= hi && p.CheckConstraints(), "every chromosome is inside the interval") || !expect(std::fabs(g - (lo + x * a)) <= slack, "every chromosome is its grid value") || !expect(x != M || g == hi, "the last step is the maximum")) return;
    }
    double g = p.GetValue(); size_t m = r.flip() ? n + 1 : n - 1; Ch w(m); Ch w0 = w; const Ch& wk = w;
    expect(throws<std::invalid_argument>([&] { p.SetChromosome(w.begin(), w.end()); }) && w == w0, "size " + str(m) + " refused when encoding");
    expect(throws<std::invalid_argument>([&] { p.SetFromChromosome(wk.begin(), wk.end()); }) && p.GetValue() == g, "size " + str(m) + " refused when decoding");
    // meta parameters
    DoubleParameter q(v, lo, hi, step), wider(v, lo, hi + (hi - lo) / 2, step), lower(v, lo - (hi - lo) / 2, hi, step), finer(v, lo, hi, a / 3), moved(hi, hi, hi + (hi - lo), step);
    expect(p.HasSameMetaParameters(&q) && !p.HasSameMetaParameters(&wider) && !p.HasSameMetaParameters(&lower) && !p.HasSameMetaParameters(&moved) && !moved.HasSameMetaParameters(&p) && !p.HasSameMetaParameters(&finer), "meta parameters");
    IntParameter ip(0, 1); expect(throws<std::runtime_error>([&] { p.HasSameMetaParameters(&ip); }), "other kind of parameter refused");
}
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    double los[] = {0, -1, 1, -5, 0.1, -0.3, 100, -1000}, ws[] = {1, 2, 0.5, 10, 0.3, 7, 1000, -1, 0}, fs[] = {1, 2, 0.5, 0.3, 0.1, 0.01, 0.001, 1e-5, 0.25, 0.2, 0.125, 1.0 / 3, 1.0 / 7, -1, 1.0 / 1000000};
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 9; ++j) for (int k = 0; k < 15; ++k) for (int e = 0; e < 5; ++e) {
        double w = ws[j], s = (w > 0 ? w : 1) * fs[k], lo = los[i], v = lo + w * (e == 0 ? 0 : e == 1 ? 1 : e == 2 ? r.unit() : e == 3 ? 1.1 : -0.1); if (e == 1) v = lo + w;
        one(r, v, lo, lo + w, s);
    }
    for (int i = 0; i < (thorough ? 400000 : 20000); ++i) {
        double lo = r.real(-10, 10), w = std::pow(10, r.real(-3, 3)), s = w / std::pow(2, r.real(-1, 27)), hi = lo + w, v = lo + r.unit() * w; if (v > hi) v = hi;
        one(r, v, lo, hi, s);
    }
    return done();
}
