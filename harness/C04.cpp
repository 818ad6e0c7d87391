// SOURCES: src/optimization/params/composite_discrete_parameters.cpp src/optimization/params/double_parameters_array.cpp src/optimization/initialization_checker.cpp src/optimization/params/double_parameter.cpp src/optimization/params/int_parameter.cpp src/optimization/params/const_chromosome_size_paremeters.cpp src/optimization/params/discrete_parameters.cpp src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <memory>
#include <cmath>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
using namespace h; using namespace k52::optimization; typedef std::vector<bool> Ch; typedef IDiscreteParameters::shared_ptr P;
// a part of any size (none included): its content is its genes; constraints: not all set, unless empty
struct Part : public IDiscreteParameters {
    mutable Ch genes; bool fine; Part(size_t n, Rng* r, bool ok = true) : genes(n), fine(ok) { if (r) for (size_t i = 0; i < n; ++i) genes[i] = r->flip(); }
    Part* Clone() const { Part* p = new Part(0, 0, fine); p->genes = genes; return p; }
    bool HasSameMetaParameters(const IDiscreteParameters*) const { return true; }
    bool CheckConstraints() const { return fine; }
    size_t GetChromosomeSize() const { return genes.size(); }
    void SetChromosome(ChromosomeType::iterator f, ChromosomeType::iterator t) const { if (t - f != (long)genes.size()) throw std::invalid_argument("size"); for (size_t i = 0; f != t; ++f, ++i) *f = genes[i]; }
    void SetFromChromosome(ChromosomeType::const_iterator f, ChromosomeType::const_iterator t) { if (t - f != (long)genes.size()) throw std::invalid_argument("size"); for (size_t i = 0; f != t; ++f, ++i) genes[i] = *f; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int, int) const {} void Receive(boost::mpi::communicator*, int, int) {}
#endif
};
static Ch random_genes(Rng& r, size_t n) { Ch c(n); for (size_t i = 0; i < n; ++i) c[i] = r.flip(); return c; }
static Ch cut(const Ch& c, size_t f, size_t t) { return Ch(c.begin() + f, c.begin() + t); }
static Part* part(const CompositeDiscreteParameters& c, size_t i) { return dynamic_cast<Part*>(c.GetParameter(i).get()); }
static void unusable(CompositeDiscreteParameters& c) {
    Ch x(3); const Ch& k = x; typedef std::logic_error L;
    expect(throws<L>([&] { c.GetNumberOfParameters(); }), "count before initialisation") && expect(throws<L>([&] { c.GetParameter(0); }), "part before initialisation") && expect(throws<L>([&] { c.CheckConstraints(); }), "constraints before initialisation")
        && expect(throws<L>([&] { c.SetChromosome(x.begin(), x.end()); }), "encoding before initialisation") && expect(throws<L>([&] { c.SetFromChromosome(k.begin(), k.end()); }), "decoding before initialisation") && expect(throws<L>([&] { delete c.Clone(); }), "clone before initialisation");
}
static void composite(Rng& r, const std::vector<size_t>& sizes, bool sample) {
    std::string d = "composite of sizes"; for (size_t i = 0; i < sizes.size(); ++i) d += " " + std::to_string(sizes[i]); begin(d + (sample ? " from a sample" : ""));
    size_t n = sizes.size(), total = 0, bad = r.flip() && n ? r.in(0, (int)n - 1) : n; std::vector<P> in; std::vector<Part*> raw; std::vector<Ch> genes;
    for (size_t i = 0; i < n; ++i) { if (!sample || !i) { Part* p = new Part(sizes[i], &r, i != bad); raw.push_back(p); in.push_back(P(p)); } genes.push_back(raw.back()->genes); total += sizes[i]; }
    CompositeDiscreteParameters c; unusable(c);
    if (sample) c.Initialize(in[0], n); else c.Initialize(in);
    if (!expect(throws<std::logic_error>([&] { c.Initialize(in); }) && throws<std::logic_error>([&] { c.Initialize(P(new Part(1, 0)), 2); }), "initialised twice")) return;
    if (!expect(c.GetNumberOfParameters() == n && c.GetChromosomeSize() == total, "number and size")) return;
    size_t out[] = {n, n + 1, (size_t)-1, (size_t)-1 - n, (size_t)1 << 60}; for (int i = 0; i < 5; ++i) if (!expect(throws<std::out_of_range>([&] { c.GetParameter(out[i]); }), "no part " + std::to_string(out[i]))) return;
    bool all = true; for (size_t i = 0; i < n; ++i) { Part* p = part(c, i); if (!expect(p && p != raw[sample ? 0 : i] && p->genes == genes[i], "copy of part " + std::to_string(i))) return; all = all && p->fine; for (size_t j = 0; j < i; ++j) if (!expect(part(c, j) != p, "parts separate")) return; }
    if (!expect(c.CheckConstraints() == all, "constraints of all parts")) return;
    // the originals are no part of it
    for (size_t i = 0; i < raw.size(); ++i) raw[i]->genes.flip();
    size_t b = r.in(0, 3), e = r.in(0, 3); Ch x = random_genes(r, b + total + e), old = x; c.SetChromosome(x.begin() + b, x.begin() + b + total);
    size_t at = b; for (size_t i = 0; i < n; ++i) { if (!expect(cut(x, at, at + sizes[i]) == genes[i], "part " + std::to_string(i) + " in its slice")) return; at += sizes[i]; }
    if (!expect(cut(x, 0, b) == cut(old, 0, b) && cut(x, b + total, x.size()) == cut(old, b + total, x.size()), "nothing outside the slice")) return;
    CompositeDiscreteParameters* cl = c.Clone(); std::unique_ptr<CompositeDiscreteParameters> own(cl);
    Ch y = random_genes(r, b + total + e); const Ch& yk = y; c.SetFromChromosome(yk.begin() + b, yk.begin() + b + total);
    at = b; for (size_t i = 0; i < n; ++i) { if (!expect(part(c, i)->genes == cut(y, at, at + sizes[i]), "part " + std::to_string(i) + " reads its slice")) return; at += sizes[i]; }
    if (!expect(cl->GetNumberOfParameters() == n && cl->GetChromosomeSize() == total, "size of the clone")) return;
    for (size_t i = 0; i < n; ++i) if (!expect(part(*cl, i) != part(c, i) && part(*cl, i)->genes == genes[i], "clone keeps its own parts")) return;
    Ch z(total); c.SetChromosome(z.begin(), z.end()); if (!expect(z == cut(y, b, b + total), "encodes what it decoded")) return;
    for (int k = -1; k < 2; k += 2) {
        if (!total && k < 0) continue;
        Ch w = random_genes(r, total + k), w0 = w; const Ch& wk = w;
        if (!expect(throws<std::invalid_argument>([&] { c.SetChromosome(w.begin(), w.end()); }) && w == w0, "wrong size refused when encoding")) return;
        if (!expect(throws<std::invalid_argument>([&] { c.SetFromChromosome(wk.begin(), wk.end()); }), "wrong size refused when decoding")) return;
        Ch z2(total); c.SetChromosome(z2.begin(), z2.end()); if (!expect(z2 == z, "wrong size changes nothing")) return;
    }
    expect(throws<std::runtime_error>([&] { c.HasSameMetaParameters(cl); }), "meta parameters are not compared");
}
static void array(Rng& r, double lo, double hi, double step, size_t n) {
    begin("array of " + std::to_string(n) + " in [" + str(lo) + ", " + str(hi) + "] step " + str(step));
    if (hi <= lo || !(step > 0)) { expect(throws<std::invalid_argument>([&] { DoubleParametersArray a(lo, hi, step, n); }), "refused"); return; }
    DoubleParametersArray a(lo, hi, step, n); DoubleParameter one(lo, lo, hi, step); double ac = a.get_actual_precision(), slack = 1e-9 * (std::fabs(lo) + std::fabs(hi) + ac); size_t m = one.GetChromosomeSize();
    if (!expect(a.get_number_of_parameters() == n && a.get_min_value() == lo && a.get_max_value() == hi && ac == one.get_actual_precision() && a.GetChromosomeSize() == n * m, "interval, steps, number and size")) return;
    std::vector<double> v(n); for (size_t i = 0; i < n; ++i) { int k = r.in(0, 3); v[i] = k == 0 ? lo : k == 1 ? hi : lo + r.unit() * (hi - lo); if (v[i] > hi) v[i] = hi; }
    a.SetValues(v); if (!expect(a.get_values() == v && a.CheckConstraints(), "stores the values")) return;
    if (n) for (int k = 0; k < 2; ++k) {
        std::vector<double> w(n, lo); w[k ? n - 1 : r.in(0, (int)n - 1)] = r.flip() ? lo - r.unit() * (hi - lo) - 1e-3 * (hi - lo) : hi + r.unit() * (hi - lo) + 1e-3 * (hi - lo);
        if (!expect(throws<std::invalid_argument>([&] { a.SetValues(w); }) && a.get_values() == v, "value outside refused, values kept")) return;
    }
    std::vector<double> more(n + 1, lo), less(n ? n - 1 : 2, lo);
    if (!expect(throws<std::invalid_argument>([&] { a.SetValues(more); }) && throws<std::invalid_argument>([&] { a.SetValues(less); }) && a.get_values() == v, "wrong number refused, values kept")) return;
    size_t b = r.in(0, 3), e = r.in(0, 3); Ch x = random_genes(r, b + n * m + e), old = x; a.SetChromosome(x.begin() + b, x.begin() + b + n * m);
    if (!expect(cut(x, 0, b) == cut(old, 0, b) && cut(x, b + n * m, x.size()) == cut(old, b + n * m, x.size()), "nothing outside the slice")) return;
    const Ch& xk = x;
    for (size_t i = 0; i < n; ++i) { one.SetFromChromosome(xk.begin() + b + i * m, xk.begin() + b + (i + 1) * m); if (!expect(std::fabs(one.GetValue() - v[i]) <= ac / 2 + slack, "value " + std::to_string(i) + " in its slice")) return; }
    if (!expect(a.get_values() == v, "encoding keeps the values")) return;
    std::unique_ptr<DoubleParametersArray> cl(a.Clone());
    if (!expect(cl->get_values() == v && cl->get_min_value() == lo && cl->get_max_value() == hi && cl->get_actual_precision() == ac && cl->GetChromosomeSize() == n * m && a.HasSameMetaParameters(cl.get()) && cl->HasSameMetaParameters(&a), "clone")) return;
    Ch y = random_genes(r, b + n * m + e); const Ch& yk = y; a.SetFromChromosome(yk.begin() + b, yk.begin() + b + n * m);
    for (size_t i = 0; i < n; ++i) { one.SetFromChromosome(yk.begin() + b + i * m, yk.begin() + b + (i + 1) * m); if (!expect(a.get_values()[i] == one.GetValue(), "value " + std::to_string(i) + " is its slice")) return; }
    if (!expect(a.get_values().size() == n && a.CheckConstraints() && cl->get_values() == v, "inside the interval, clone independent")) return;
    std::vector<double> now = a.get_values(); Ch z(n * m); a.SetChromosome(z.begin(), z.end()); if (!expect(z == cut(y, b, b + n * m), "encodes what it decoded")) return;
    for (int k = -1; k < 2; k += 2) {
        if (!(n * m) && k < 0) continue;
        Ch w = random_genes(r, n * m + k), w0 = w; const Ch& wk = w;
        if (!expect(throws<std::invalid_argument>([&] { a.SetChromosome(w.begin(), w.end()); }) && w == w0, "wrong size refused when encoding")) return;
        if (!expect(throws<std::invalid_argument>([&] { a.SetFromChromosome(wk.begin(), wk.end()); }) && a.get_values() == now, "wrong size refused when decoding")) return;
    }
    DoubleParametersArray wider(lo, hi + (hi - lo), step, n), finer(lo, hi, ac / 3, n), longer(lo, hi, step, n + 1);
    expect(!a.HasSameMetaParameters(&wider) && !a.HasSameMetaParameters(&finer) && !a.HasSameMetaParameters(&longer), "other meta parameters");
    IntParameter ip(0, 1); expect(throws<std::runtime_error>([&] { a.HasSameMetaParameters(&ip); }), "other kind refused");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    for (int rep = 0; rep < 3; ++rep) for (int n = 0; n < 5; ++n) for (int k = 0; k < 81; ++k) { std::vector<size_t> s; for (int i = 0, q = k; i < n; ++i, q /= 3) s.push_back(q % 3); composite(r, s, false); }
    for (int i = 0; i < (thorough ? 100000 : 4000); ++i) { std::vector<size_t> s(r.in(0, 9)); bool same = r.flip() && s.size(); size_t z = r.in(0, 40); for (size_t j = 0; j < s.size(); ++j) s[j] = same ? z : r.in(0, 12); composite(r, s, same); }
    double los[] = {0, -1, 3, -0.3}, ws[] = {1, 0.5, 7, -1, 0}, fs[] = {1, 0.5, 0.3, 0.01, 1e-5, -1, 0};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 7; ++k) for (size_t n = 0; n < 5; ++n) { double w = ws[j], s = (w > 0 ? w : 1) * fs[k]; if (s == 0 && w > 0) continue; array(r, los[i], los[i] + w, s, n); }
    for (int i = 0; i < (thorough ? 60000 : 3000); ++i) { double lo = r.real(-10, 10), w = std::pow(10, r.real(-3, 3)); array(r, lo, lo + w, w / std::pow(2, r.real(-1, 27)), r.in(0, 12)); }
    return done();
}
