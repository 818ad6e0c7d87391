// SOURCES: src/optimization/*.cpp src/optimization/genetic_algorithm/*.cpp src/optimization/params/*.cpp src/common/*.cpp src/parallel/*.cpp src/parallel/thread/*.cpp
// LIBS: -lboost_thread -lboost_system -lpthread
#include "h.h"
#include "cont.h"
#include <algorithm>
#include <mutex>
#include <typeinfo>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include "../src/optimization/simple_parameters_processor.h"
#include "../src/optimization/optimization_parameters_processor.h"
using namespace h; using namespace k52::optimization;
static std::mutex lock; static std::vector<V> seen;
static double bumps(const V& v) { double s = 0; for (size_t i = 0; i < v.size(); ++i) s += std::floor(4 * std::sin(3 * v[i] + i)) - 0.25 * std::floor(std::fabs(v[i])); return s; }
static double watched(const V& v) { { std::lock_guard<std::mutex> g(lock); seen.push_back(v); } return bumps(v); }
static V moved(const V& v, bool up) { V w(v); for (size_t i = 0; i < w.size(); ++i) { V x(w); x[i] += 0.7; if (up ? bumps(x) > bumps(w) : bumps(x) < bumps(w)) w = x; } return w; }
struct Step : public ContinuousOptimizer {
    bool up, bad; explicit Step(bool u, bool b = false) : up(u), bad(b) {}
    std::string get_name() const { return "step"; } Step* Clone() const { return new Step(up, bad); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {} void Receive(boost::mpi::communicator*, int) {}
#endif
    V FindOptimalParameters(const V& v) { (void)CountObjectiveFunctionValueToMinimize(v); return moved(v, get_maximize()); }
};
typedef std::vector<IParameters::shared_ptr> P;
static V some(Rng& r, size_t n) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = r.in(0, 2) ? r.real(-4, 4) : r.in(-3, 3); return v; }
static bool best(const std::vector<double>& all, double x, bool up) { for (size_t i = 0; i < all.size(); ++i) if (up ? all[i] > x : all[i] < x) return false; return true; }
static void processors(Rng& r, int k) {
    size_t m = r.in(1, 9), n = r.in(1, 3); bool up = r.flip(); begin("processors " + std::to_string(k) + " of " + std::to_string(m) + " candidates" + (up ? ", maximise" : ", minimise"));
    P c; std::vector<V> before; std::vector<double> plain, tuned; Fun f(bumps, false);
    for (size_t i = 0; i < m; ++i) { V v = some(r, n); if (i && r.in(0, 4) == 0) v = before[r.in(0, i - 1)]; before.push_back(v); c.push_back(IParameters::shared_ptr(new Box(v))); plain.push_back(bumps(v)); tuned.push_back(bumps(moved(v, up))); }
    SimpleParametersProcessor s; IParameters::shared_ptr a = s.ProcessParameters(f, c, up);
    expect(std::find(c.begin(), c.end(), a) != c.end(), "one of the candidates"); expect(best(plain, bumps(((Box*)a.get())->v), up), "the best of the candidates");
    if (k % 4 == 0) {
        Step o(up); OptimizationParametersProcessor p(&o); IParameters::shared_ptr b = p.ProcessParameters(f, c, up); Box* bb = dynamic_cast<Box*>(b.get());
        if (expect(bb, "parameters")) { bool one = false; for (size_t i = 0; i < m; ++i) if (moved(before[i], up) == bb->v) one = true; expect(one, "one of the optimised candidates"); expect(best(tuned, bumps(bb->v), up), "the best of the optimised candidates"); }
        expect(throws<std::invalid_argument>([&] { p.ProcessParameters(f, P(), up); }), "no candidates refused");
    }
    for (size_t i = 0; i < m; ++i) expect(((Box*)c[i].get())->v == before[i], "candidates not changed");
    expect(throws<std::invalid_argument>([&] { s.ProcessParameters(f, P(), up); }), "no candidates refused");
}
static void search(Rng& r, int k) {
    size_t m = r.in(1, 12), n = r.in(1, 4); double lo = r.real(-5, 5), hi = r.flip() ? lo : lo + r.real(0, 6); bool up = r.flip(), opt = k % 4 == 0; begin("search " + std::to_string(k) + ", " + std::to_string(m) + " points");
    Step o(up); RandomSearch s(m, lo, hi, opt ? &o : 0); Fun f(watched, false); Box b(some(r, n)); seen.clear(); s.Optimize(f, (IContinuousParameters*)&b, up);
    double got = bumps(b.v); std::vector<double> all; size_t inside = 0;
    for (size_t i = 0; i < seen.size(); ++i) { bool in = true; for (size_t j = 0; j < n; ++j) if (!(lo <= seen[i][j] && seen[i][j] <= hi)) in = false; inside += in; all.push_back(bumps(seen[i])); }
    if (!opt) { expect(inside == seen.size(), "every candidate inside the box"); expect(seen.size() == m, "as many candidates as asked"); }
    else expect(inside >= m, "every start inside the box");
    expect(best(all, got, up), "the best one is returned"); expect(std::find(seen.begin(), seen.end(), b.v) != seen.end(), "an evaluated point is returned");
    RandomSearch z(0, lo, hi); expect(throws<std::invalid_argument>([&] { z.Optimize(f, (IContinuousParameters*)&b, up); }), "no candidates refused");
}
struct SA : public SimulatedAnnealing { SA(size_t m, double a, double b) : SimulatedAnnealing(m, a, b) {} using SimulatedAnnealing::CountTemperature; using SimulatedAnnealing::CountAcceptanceProbability; using SimulatedAnnealing::GetRandomNeighbour; };
static void annealing(Rng& r, int k) {
    size_t m = r.in(1, 200), n = r.in(1, 5); double lo = r.real(-5, 5), hi = r.flip() ? lo + r.real(0, 6) : lo + 1; bool up = r.flip(); double scale = r.in(0, 3) ? r.real(0.01, 1) : 0; begin("annealing " + std::to_string(k) + ", " + std::to_string(m) + " iterations, scale " + str(scale));
    SA s(m, lo, hi); Fun f([&](const V& v) { return scale * bumps(v); }); V x0 = some(r, n); Box b(x0); s.Optimize(f, (IContinuousParameters*)&b, up);
    if (!expect(f.asked.size() == 2 * m, "two evaluations per iteration")) return; double sum = 0, var = 0; expect(f.asked[0] == x0, "starts from the initial parameters");
    for (size_t i = 0; i < m; ++i) {
        const V &c = f.asked[2 * i], &w = f.asked[2 * i + 1], &next = i + 1 < m ? f.asked[2 * i + 2] : b.v; size_t diff = 0;
        for (size_t j = 0; j < n; ++j) if (c[j] != w[j]) { ++diff; expect(lo <= w[j] && w[j] <= hi, "changed to a value inside the bounds"); }
        expect(w.size() == n && diff <= 1, "one coordinate changed"); if (!expect(next == c || next == w, "stays or moves")) return;
        double cur = up ? -f.gave[2 * i] : f.gave[2 * i], nw = up ? -f.gave[2 * i + 1] : f.gave[2 * i + 1], t = double(m - 1 - i) / m, p = nw < cur ? 1 : t == 0 ? 0 : std::exp((cur - nw) / t); bool moved = next == w;
        if (c == w) continue;
        if (p == 1) expect(moved, "improvements and equal moves are accepted"); else { sum += (moved ? 1 : 0) - p; var += p * (1 - p); if (p < 1e-12) expect(!moved, "hopeless moves are not accepted"); }
        expect(near(s.CountTemperature(i + 1), t, 1e-15), "temperature"); if (t > 0) expect(near(s.CountAcceptanceProbability(cur, nw, t), p, 1e-12), "acceptance probability");
    }
    expect(std::fabs(sum) <= 7 * std::sqrt(var) + 3, "accepted as often as the probability says");
    expect(throws<std::runtime_error>([&] { s.CountAcceptanceProbability(1, 2, -r.real(1e-9, 1)); }), "negative temperature refused");
    V v = some(r, n), w = s.GetRandomNeighbour(v); size_t diff = 0; for (size_t j = 0; j < n; ++j) if (v[j] != w[j]) ++diff; expect(w.size() == n && diff <= 1, "neighbour");
}
int main(int argc, char** argv) {
    start(argc, argv); Rng r(seed); srand((unsigned)seed);
    for (int k = 0; k < (thorough ? 4000 : 400); ++k) { processors(r, k); search(r, k); }
    for (int k = 0; k < (thorough ? 4000 : 600); ++k) annealing(r, k);
    return done();
}
