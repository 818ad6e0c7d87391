// SOURCES: src/optimization/genetic_algorithm/gen_mutator_base.cpp src/optimization/genetic_algorithm/flip_bit_mutator.cpp src/optimization/genetic_algorithm/linear_mutator.cpp src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <k52/common/random.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/gen_mutator_base.h>
using namespace h; using namespace k52::optimization; typedef std::vector<bool> Ch;
static std::vector<int> script; static size_t pos = 0; static Rng* source = 0;
extern "C" int rand() throw() { if (pos < script.size()) return script[pos++]; int x = (int)(source->next() >> 33); script.push_back(x); ++pos; return x; }
extern "C" void srand(unsigned) throw() {}
struct Policy : public GenMutatorBase {
    Ch answers; size_t asked; std::vector<int> log; Ch told;
    Policy() : asked(0) {}
    bool ShouldMutateCurrentGen() { log.push_back(0); return answers[asked++ % answers.size()]; }
    void AfterGenProcessed(bool w) { log.push_back(1); told.push_back(w); }
    const MutationContext& context() const { return get_mutation_context(); }
};
static Ch genes(Rng& r, size_t n) { Ch c(n); for (size_t i = 0; i < n; ++i) c[i] = r.flip(); return c; }
static void base(Rng& r, size_t n) {
    begin("base policy, " + std::to_string(n) + " genes"); Policy p; p.answers = genes(r, 1 + r.in(0, 200)); size_t at = 0;
    for (int k = 0; k < 3; ++k) {
        Ch c = genes(r, n), old = c; p.log.clear(); p.told.clear(); p.MutateChromosome(&c); if (!expect(c.size() == n && p.told.size() == n && p.log.size() == 2 * n, "asked and told once per gene")) return;
        for (size_t i = 0; i < n; ++i) { bool a = p.answers[(at + i) % p.answers.size()]; if (!expect(c[i] == (old[i] != a), "gene " + std::to_string(i) + " inverted exactly when selected") || !expect(p.told[i] == a && p.log[2 * i] == 0 && p.log[2 * i + 1] == 1, "told what was answered")) return; }
        at += n;
    }
    MutationContext m; m.current_generation = r.in(0, 1000); m.max_number_of_generations = r.in(0, 1000); p.ApplyNewMutationContext(m);
    expect(p.context().current_generation == m.current_generation && p.context().max_number_of_generations == m.max_number_of_generations, "context kept");
}
static void flip(Rng& r, double p) {
    begin("flip bit, probability " + str(p)); script.clear(); pos = 0;
    if (std::floor(1 / p) - 1 <= 0) { expect(throws<std::invalid_argument>([&] { FlipBitMutator f(p); }), "refused"); return; }
    long max = (long)std::floor(1 / p) - 1; k52::common::Random::Instance(); script.clear(); pos = 0;
    bool ends = r.flip(); if (ends) for (int i = 0; i < 6; ++i) script.push_back(r.flip() ? (int)(max + 1) * r.in(0, 2) : r.flip() ? (int)max : 0);
    FlipBitMutator f(p); std::vector<size_t> n; Ch all; for (int k = 0; k < 6; ++k) { n.push_back(r.in(0, 60)); Ch c = genes(r, n[k]), old = c; f.MutateChromosome(&c); if (!expect(c.size() == n[k], "length kept")) return; for (size_t i = 0; i < n[k]; ++i) all.push_back(c[i] != old[i]); }
    size_t d = 0, i = 0; while (i < all.size()) { if (!expect(d < pos, "a gap is drawn for every flip")) return; long gap = script[d++] % (max + 1); for (long k = 0; k < gap && i < all.size(); ++k, ++i) if (!expect(!all[i], "gene " + std::to_string(i) + " of a gap of " + std::to_string(gap) + " is skipped")) return; if (i < all.size()) { if (!expect(all[i], "gene " + std::to_string(i) + " after a gap of " + std::to_string(gap) + " is flipped")) return; ++i; if (i == all.size()) ++d; } }
    if (!all.size()) d = 1;
    expect(pos == d, "a gap is drawn after every flip only");
}
static void linear(Rng& r, double s, double e, int g, int m) {
    begin("linear, from " + str(s) + " to " + str(e) + ", generation " + std::to_string(g) + " of " + std::to_string(m));
    if (s < 0 || s > 1 || e < 0 || e > 1 || s != s || e != e) { expect(throws<std::invalid_argument>([&] { LinearMutator l(s, e); }), "refused"); return; }
    LinearMutator l(s, e); MutationContext c; c.current_generation = g; c.max_number_of_generations = m; l.ApplyNewMutationContext(c); k52::common::Random::Instance();
    double p = s + (e - s) * g / (m - 1); size_t n = r.in(1, 20); script.clear(); pos = 0; Ch want; std::vector<int> in;
    for (size_t i = 0; i < n; ++i) { double q = r.flip() ? p + (r.flip() ? 1e-6 : -1e-6) : r.unit(); if (q < 0) q = 0; if (q > 1) q = 1; if (std::fabs(q - p) < 1e-7) q = p > 0.5 ? 0 : 1; if (std::fabs(q - p) < 1e-7) continue; in.push_back((int)(q * RAND_MAX)); want.push_back(q < p); }
    script = in; Ch x = genes(r, in.size()), old = x; l.MutateChromosome(&x); if (!expect(pos == in.size(), "one draw per gene")) return;
    for (size_t i = 0; i < in.size(); ++i) if (!expect((x[i] != old[i]) == want[i], "gene " + std::to_string(i) + " flipped exactly when the draw is below " + str(p))) return;
}
int main(int c, char** v) {
    start(c, v); Rng r(seed), s(seed + 7); source = &s;
    for (int n = 0; n < 70; ++n) base(r, n);
    double ps[] = {1, 0.9, 0.51, 0.5, 0.4, 1.0 / 3, 0.3, 0.25, 0.2, 0.1, 0.07, 0.01, 0.001, 1e-5, 1e-8, 1e-9, -0.1, -1, -1e-9, 2, 10, 0.3333, 0.3334, 1.5};
    for (int i = 0; i < 24; ++i) for (int k = 0; k < 40; ++k) flip(r, ps[i]);
    for (int i = 0; i < (thorough ? 200000 : 6000); ++i) flip(r, std::pow(10, r.real(-3, 0.2)));
    double es[] = {0, 1, 0.5, 0.1, 0.25, 0.9, -0.1, 1.1, -1e-9, 1 + 1e-9, 7};
    for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) for (int m = 2; m < 8; ++m) for (int g = 0; g < m; ++g) linear(r, es[i], es[j], g, m);
    for (int i = 0; i < (thorough ? 200000 : 6000); ++i) { int m = r.in(2, 2000); linear(r, r.unit(), r.unit(), r.in(0, m - 1), m); }
    return done();
}
