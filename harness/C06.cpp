// SOURCES: src/optimization/genetic_algorithm/individual.cpp src/optimization/initialization_checker.cpp src/common/random.cpp
#include "h.h"
#include "part.h"
#include <set>
#include <k52/common/random.h>
#include <k52/optimization/individual.h>
using namespace h; using namespace k52::optimization;
static std::vector<int> script; static size_t pos = 0; static Rng* source = 0;
extern "C" int rand() throw() { if (pos < script.size()) return script[pos++]; int x = (int)(source->next() >> 33); script.push_back(x); ++pos; return x; }
static bool fine(const Ch& c) { return c.empty() || !c[0]; }
static const Part* part(const Individual& i) { return dynamic_cast<const Part*>(i.GetParametersAccordingToChromosome()); }
static void cross(Rng& r, size_t n, size_t m, int draw) {
    begin(std::to_string(n) + " and " + std::to_string(m) + " genes, draw " + std::to_string(draw)); k52::common::Random::Instance();
    Part p(n, r.flip() ? fine : 0), q(m, r.flip() ? fine : 0); p.genes = some_genes(r, n); q.genes = some_genes(r, m); Individual a(&p), b(&q); if (r.flip()) a.set_fitness(3); if (r.flip()) b.set_fitness(4);
    script.clear(); pos = 0; if (draw >= 0) script.push_back(draw);
    Ch x = a.GetChromosome(), y = b.GetChromosome(); bool ok = false;
    if (n != m) { expect(throws<std::invalid_argument>([&] { a.Crossover(&b); }), "sizes refused") && expect(a.GetChromosome() == x && b.GetChromosome() == y && part(a)->genes == x && part(b)->genes == y, "refused individuals keep their genes"); return; }
    ok = a.Crossover(&b); if (!expect(pos == (n ? 1 : 0), "one draw")) return;
    Ch u = a.GetChromosome(), v = b.GetChromosome(); size_t cut = n ? script[0] % n : 0; if (!expect(u.size() == n && v.size() == n, "lengths kept")) return;
    for (size_t i = 0; i < n; ++i) if (!expect(i < cut ? u[i] == x[i] && v[i] == y[i] : u[i] == y[i] && v[i] == x[i], "gene " + std::to_string(i) + " with cut point " + std::to_string(cut))) return;
    if (!expect(part(a)->genes == u && part(b)->genes == v, "parameters are the decoded chromosomes")) return;
    expect(!a.HasFitness() && !b.HasFitness(), "fitness dropped") && expect(ok == ((!p.ok || fine(u)) && (!q.ok || fine(v))), "success exactly when both satisfy the constraints");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed), s(seed + 7); source = &s;
    for (int n = 0; n < 30; ++n) for (int d = 0; d <= n; ++d) for (int k = 0; k < 3; ++k) cross(r, n, n, d + n * r.in(0, 5));
    for (int n = 0; n < 12; ++n) for (int m = 0; m < 12; ++m) if (n != m) cross(r, n, m, -1);
    for (int n = 1; n < 20; ++n) { int d[] = {RAND_MAX, RAND_MAX - 1, RAND_MAX / 2, RAND_MAX - n}; for (int k = 0; k < 4; ++k) cross(r, n, n, d[k]); }
    for (int i = 0; i < (thorough ? 100000 : 4000); ++i) cross(r, i % 200, i % 200, -1);
    return done();
}
