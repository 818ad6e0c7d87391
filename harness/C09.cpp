// SOURCES: src/optimization/objective_function_counter.cpp src/optimization/count_objective_function_task.cpp src/optimization/objective_function_task_result.cpp src/optimization/genetic_algorithm/individual.cpp src/optimization/initialization_checker.cpp src/common/*.cpp src/parallel/*.cpp src/parallel/thread/*.cpp
// LIBS: -lboost_thread -lboost_system -lpthread
#include "h.h"
#include "part.h"
#include <map>
#include <set>
#include <algorithm>
#include <mutex>
#include <unistd.h>
#include <k52/optimization/individual.h>
#include "../src/optimization/objective_function_counter.h"
using namespace h; using namespace k52::optimization;
static std::mutex lock; static std::vector<Ch> asked;
static uint64_t mix(const Ch& c, uint64_t salt) { uint64_t z = salt * 0x9E3779B97F4A7C15ull + c.size(); for (size_t i = 0; i < c.size(); ++i) { z ^= c[i] ? 0x94D049BB133111EBull : 0x5851F42D4C957F2Dull; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; } return z; }
struct Goal : public IObjectiveFunction {
    uint64_t salt; bool negative; Goal(uint64_t s, bool n) : salt(s), negative(n) {}
    double of(const Ch& c) const { uint64_t z = mix(c, salt); double v = z % 5 == 0 ? 0 : (z >> 12) / 1048576.0; return negative && z % 7 == 0 ? -1 - v : v; }
    double operator()(const IParameters* p) const { const Part* q = dynamic_cast<const Part*>(p); { std::lock_guard<std::mutex> g(lock); asked.push_back(q->genes); } if (mix(q->genes, 3) % 4 == 0) usleep(50); return of(q->genes); }
    Goal* Clone() const { return new Goal(salt, negative); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int, int) const {} void Receive(boost::mpi::communicator*, int, int) {}
#endif
};
typedef std::vector<Individual::shared_ptr> Pop;
static Individual::shared_ptr one(const Ch& g) { Part p(g.size(), 0); p.genes = g; return Individual::shared_ptr(new Individual(&p)); }
static Ch bits(uint64_t x) { Ch c(64); for (int i = 0; i < 64; ++i) c[i] = x >> i & 1; return c; }
// chromosomes of the population in order, none given twice unless it was already there
static void round_(ObjectiveFunctionCounter& k, const Goal& g, const Pop& pop0, std::set<Ch>* cached, bool may_forget) {
    Pop pop(pop0); std::vector<Ch> genes; int hits = k.get_cache_hits(), counts = k.get_objective_function_counts(); std::vector<Ch> misses; bool refuse = false;
    for (size_t i = 0; i < pop.size(); ++i) { genes.push_back(pop[i]->GetChromosome()); if (g.of(genes[i]) < 0) refuse = true; if (!cached || !cached->count(genes[i])) misses.push_back(genes[i]); }
    asked.clear();
    if (refuse) { expect(throws<std::logic_error>([&] { k.ObtainFitness(g, &pop); }), "negative values refused"); return; }
    if (may_forget) { try { k.ObtainFitness(g, &pop); } catch (const std::runtime_error&) { k.ClearCache(); } }   // the cache could not be brought below its limit
    else k.ObtainFitness(g, &pop);
    expect(pop == pop0, "the same individuals");
    for (size_t i = 0; i < pop.size(); ++i) { expect(pop[i]->HasFitness() && pop[i]->get_fitness() == g.of(genes[i]), "value of its own parameters of individual " + std::to_string(i)); expect(pop[i]->GetChromosome() == genes[i], "chromosome not changed"); }
    std::vector<Ch> a(asked), m(misses); std::sort(a.begin(), a.end()); std::sort(m.begin(), m.end());
    if (!may_forget) { expect(a == m, "exactly those not cached are evaluated"); expect(k.get_cache_hits() - hits == (int)(pop.size() - m.size()), "hits counted"); }
    else expect(k.get_cache_hits() - hits == (int)(pop.size() - a.size()), "hits counted");
    expect(k.get_objective_function_counts() - counts == (int)a.size(), "evaluations counted");
    if (cached) for (size_t i = 0; i < genes.size(); ++i) cached->insert(genes[i]);
}
static void run(Rng& r, int k) {
    double limit = k % 3 == 0 ? 0 : k % 7 == 1 ? 0.0003 : 64; size_t n = r.in(1, 3) == 1 ? 64 : r.in(0, 9); begin("run " + std::to_string(k) + " of " + std::to_string(n) + " genes, cache limit " + str(limit));
    ObjectiveFunctionCounter c(limit); Goal g(r.next(), false); std::set<Ch> cached; std::vector<Ch> known; bool forget = limit > 0 && limit < 1;
    if (n == 64) { known.push_back(bits(0x1f9e3221c0ce6c03ull)); known.push_back(bits(0xda5e8af11c60b840ull)); }
    for (int j = 0; j < 6; ++j) {
        Pop p; size_t m = r.in(0, 12);
        for (size_t i = 0; i < m; ++i) { Ch x = !known.empty() && r.flip() ? known[r.in(0, (int)known.size() - 1)] : some_genes(r, n); Individual::shared_ptr q = i && r.in(0, 5) == 0 ? p[r.in(0, (int)i - 1)] : one(x); if (r.in(0, 3) == 0) q->set_fitness(7); p.push_back(q); known.push_back(q->GetChromosome()); }
        round_(c, g, p, limit > 0 ? &cached : 0, forget);
        if (r.in(0, 5) == 0) { c.ClearCache(); cached.clear(); g.salt = r.next(); }
        if (r.in(0, 5) == 0) { c.ResetCacheHits(); expect(c.get_cache_hits() == 0, "no hits"); }
    }
    c.ClearCache(); Pop p; for (int i = 0; i < 6; ++i) p.push_back(one(some_genes(r, n))); round_(c, Goal(g.salt, true), p, 0, true);
}
static void list(Rng& r, int k) {
    size_t n = r.in(0, 9), m = r.in(0, 40); begin("list " + std::to_string(k) + " of " + std::to_string(m) + " parameters");
    ObjectiveFunctionCounter c(r.in(0, 1)); Goal g(r.next(), r.flip()); std::vector<boost::shared_ptr<Part> > own; std::vector<const IParameters*> l; for (size_t i = 0; i < m; ++i) { own.push_back(boost::shared_ptr<Part>(new Part(n, 0))); own[i]->genes = some_genes(r, n); l.push_back(own[i].get()); }
    asked.clear(); std::vector<double> v = c.CountObjectiveFunctionValues(l, g); if (!expect(v.size() == m, "one value per parameter object")) return;
    for (size_t i = 0; i < m; ++i) expect(v[i] == g.of(own[i]->genes), "value " + std::to_string(i) + " is the one of its parameters"); expect(asked.size() == m && c.get_objective_function_counts() == (int)m, "evaluations counted");
}
int main(int argc, char** argv) {
    start(argc, argv); Rng r(seed + 9); int N = thorough ? 3000 : 300;
    for (int k = 0; k < N; ++k) { run(r, k); list(r, k); }
    return done();
}
