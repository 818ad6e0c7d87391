// SOURCES: src/optimization/genetic_algorithm/generation_statistics.cpp src/optimization/genetic_algorithm/individual.cpp src/optimization/params/const_chromosome_size_paremeters.cpp src/optimization/params/continuous_parameters_array.cpp src/optimization/params/int_parameter.cpp src/optimization/params/discrete_parameters.cpp src/optimization/initialization_checker.cpp src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <list>
#include <algorithm>
#include <memory>
#include <k52/optimization/generation_statistics.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/const_chromosome_size_paremeters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
using namespace h; using namespace k52::optimization;
struct Sized : ConstChromosomeSizeParemeters {
    void SetChromosome(ChromosomeType::iterator, ChromosomeType::iterator) const {}
    void SetFromChromosome(ChromosomeType::const_iterator, ChromosomeType::const_iterator) {}
    bool CheckConstraints() const { return true; }
    bool HasSameMetaParameters(const IDiscreteParameters*) const { return true; }
    Sized* Clone() const { Sized* s = new Sized(); s->CopyState(this); return s; }
    using ConstChromosomeSizeParemeters::SetConstChromosomeSize; using ConstChromosomeSizeParemeters::CheckForConstChromosomeSize; using ConstChromosomeSizeParemeters::CopyState;
};
typedef std::list<IndividualStatistics> Stats;
struct Want { double avg, best; size_t gen; int hits, invalid; int value; Stats st; };
static bool same(const GenerationStatistics& g, const Want& w, const void* not_this, const char* what) {
    std::string s(what);
    const IntParameter* p = dynamic_cast<const IntParameter*>(g.get_best_parameters());
    bool ok = expect(p && (const void*)p != not_this && p->get_value() == w.value && p->get_min_value() == -50 && p->get_max_value() == 50, s + ": best parameters")
        && expect(g.get_average_fitness() == w.avg, s + ": average fitness") && expect(g.get_best_fitness() == w.best, s + ": best fitness")
        && expect(g.get_number_of_generation() == w.gen, s + ": generation") && expect(g.get_cache_hits() == w.hits, s + ": cache hits") && expect(g.get_invalid_chromosomes() == w.invalid, s + ": invalid chromosomes");
    Stats a = g.get_all_individuals_statistics(); ok = ok && expect(a.size() == w.st.size(), s + ": number of individual statistics");
    if (ok) for (Stats::iterator i = a.begin(), j = const_cast<Want&>(w).st.begin(); i != a.end(); ++i, ++j) if (!expect(i->fitness == j->fitness && i->times_chosen_for_crossover == j->times_chosen_for_crossover, s + ": individual statistics")) return false;
    return ok;
}
static Want make(Rng& r) {
    Want w; w.avg = r.real(0, 9); w.best = r.real(0, 9); w.gen = r.next() >> r.in(0, 63); w.hits = r.in(0, 99); w.invalid = r.in(0, 99); w.value = r.in(-50, 50);
    for (int n = r.in(0, 6); n > 0; --n) { IndividualStatistics s; s.fitness = r.real(0, 5); s.times_chosen_for_crossover = r.in(0, 9); w.st.push_back(s); } return w;
}
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    for (int i = 0; i < (thorough ? 60000 : 6000); ++i) {
        begin("generation statistics " + str(i)); Want w = make(r), v = make(r); IntParameter p(w.value, -50, 50), q(v.value, -50, 50); std::list<std::string> f1, f2;
        GenerationStatistics g(w.avg, &p, w.best, w.gen, w.hits, w.invalid, &f1, w.st); p.set_value(r.in(-50, 50));
        if (!same(g, w, &p, "built")) break;
        GenerationStatistics cp(g); if (!same(cp, w, g.get_best_parameters(), "copied")) break;
        GenerationStatistics* o = new GenerationStatistics(v.avg, &q, v.best, v.gen, v.hits, v.invalid, &f2, v.st); if (!same(*o, v, &q, "built")) break;
        cp = *o; if (!same(cp, v, o->get_best_parameters(), "assigned")) break;
        GenerationStatistics& self = g; g = self; if (!same(g, w, &p, "assigned to itself")) break;
        delete o; if (!same(cp, v, 0, "after the original is gone")) break;
        g.SaveCurrentPopulationToFile("a"); cp.SaveCurrentPopulationToFile("b"); g.SaveCurrentPopulationToFile("c"); GenerationStatistics d(g); d.SaveCurrentPopulationToFile("d");
        if (!expect(f1.size() == 3 && f1.front() == "a" && f1.back() == "d" && *++f1.begin() == "c" && f2.size() == 1 && f2.front() == "b", "file list")) break;
        // rank
        Stats s = w.st; for (Stats::iterator x = s.begin(); x != s.end(); ++x) for (Stats::iterator y = s.begin(); y != s.end(); ++y)
            if (!expect(IndividualStatistics::Less(*x, *y) == (x->times_chosen_for_crossover < y->times_chosen_for_crossover) && IndividualStatistics::Greater(*x, *y) == (x->times_chosen_for_crossover > y->times_chosen_for_crossover), "ordering by the number of choices")) break;
    }
    for (int i = 0; i < (thorough ? 40000 : 4000); ++i) {
        begin("individual " + str(i)); IntParameter p(r.in(0, 20), 0, 20); Individual x(&p); int n = 0; bool has = false; double fit = 0;
        expect(x.get_times_chosen_for_crossover() == 0 && !x.HasFitness(), "new individual");
        for (int k = 0; k < 15; ++k) switch (r.in(0, 4)) {
            case 0: x.IncreaseTimesChosenForCrossover(); ++n; break;
            case 1: if (r.in(0, 2) == 0) { x.ResetTimesChosenForCrossover(); n = 0; } break;
            case 2: fit = r.in(0, 5) ? r.real(0, 3) : 0; x.set_fitness(fit); has = true; break;
            case 3: expect(throws<std::logic_error>([&] { x.set_fitness(-r.real(1e-9, 2)); }), "negative fitness refused"); break;
            default:
                if (!has) expect(throws<std::logic_error>([&] { x.get_individual_statistics(); }), "no statistics without fitness");
                else { IndividualStatistics s = x.get_individual_statistics(); expect(s.fitness == fit && s.times_chosen_for_crossover == n && x.get_fitness() == fit, "individual statistics"); }
                expect(x.get_times_chosen_for_crossover() == n && x.HasFitness() == has, "choices counted");
        }
    }
    for (size_t n = 0; n < 200; ++n) {
        begin("size " + str(n)); Sized s;
        expect(throws<std::logic_error>([&] { s.GetChromosomeSize(); }) && throws<std::logic_error>([&] { s.CheckForConstChromosomeSize(n); }) && throws<std::logic_error>([&] { s.CheckForConstChromosomeSize(0); }), "unset size refused");
        s.SetConstChromosomeSize(n); expect(s.GetChromosomeSize() == n, "size kept"); expect(no_throw([&] { s.CheckForConstChromosomeSize(n); }), "right size accepted");
        for (size_t m = 0; m < 200; ++m) if (m != n && !expect(throws<std::invalid_argument>([&] { s.CheckForConstChromosomeSize(m); }), "size " + str(m) + " refused")) break;
        expect(throws<std::logic_error>([&] { s.SetConstChromosomeSize(n); }) && throws<std::logic_error>([&] { s.SetConstChromosomeSize(n + 1); }) && s.GetChromosomeSize() == n, "second size refused");
        std::unique_ptr<Sized> k(s.Clone()); expect(k->GetChromosomeSize() == n && throws<std::logic_error>([&] { k->SetConstChromosomeSize(n); }), "state copied");
        Sized t; std::unique_ptr<Sized> u(t.Clone()); expect(throws<std::logic_error>([&] { u->GetChromosomeSize(); }), "unset state copied");
    }
    for (int i = 0; i < (thorough ? 40000 : 4000); ++i) {
        size_t n = r.in(0, 12); std::vector<double> v(n), w(n), x(n + (r.flip() ? 1 + r.in(0, 2) : 0)); if (x.size() == n && n) x.resize(r.in(0, (int)n - 1)); else if (x.size() == n) x.resize(1);
        for (double& e : v) e = r.real(-5, 5); for (double& e : w) e = r.real(-5, 5); begin("array " + str(v));
        ContinuousParametersArray p(v), z(n); expect(p.GetValues() == v && z.GetValues().size() == n && p.CheckConstraints(), "values stored at construction");
        std::unique_ptr<ContinuousParametersArray> k(p.Clone()); expect(k->GetValues() == v, "clone");
        p.SetValues(w); expect(p.GetValues() == w && k->GetValues() == v, "values stored");
        expect(throws<std::invalid_argument>([&] { p.SetValues(x); }) && p.GetValues() == w, "other size refused");
    }
    return done();
}
