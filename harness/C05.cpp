// SOURCES: src/optimization/genetic_algorithm/individual.cpp src/optimization/initialization_checker.cpp src/common/random.cpp
#include "h.h"
#include "part.h"
#include <memory>
#include <k52/common/random.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/i_mutator.h>
using namespace h; using namespace k52::optimization;
static bool two(const Ch& c) { size_t n = 0; for (size_t i = 0; i < c.size(); ++i) n += c[i]; return n % 3 != 1; }   // some chromosomes are not allowed
static bool rare(const Ch& c) { return c.size() < 3 || (!c[0] && c[1] && !c[2]); }
static const Part* part(const Individual& i) { return dynamic_cast<const Part*>(i.GetParametersAccordingToChromosome()); }
struct Shuffle : public IMutator { Rng& r; long calls; explicit Shuffle(Rng& g) : r(g), calls(0) {} void ApplyNewMutationContext(const MutationContext&) {} void MutateChromosome(ChromosomeType* c) { ++calls; for (size_t i = 0; i < c->size(); ++i) if (r.flip()) (*c)[i] = !(*c)[i]; } };
static std::string line(const Ch& c, const std::string& fit) { std::string s = "Chromosome:\t"; for (size_t i = 0; i < c.size(); ++i) s += c[i] ? '1' : '0'; return s + "\tFitness:\t" + fit + "\n"; }
static bool whole(const Individual& i, const Ch& genes, const std::string& when) { return expect(i.GetChromosome() == genes && part(i) && part(i)->genes == genes, "parameters are the decoded chromosome " + when); }
static void fits(const Individual& i, bool has, double f, const std::string& when) { expect(i.HasFitness() == has, "fitness known " + when) && (has ? expect(i.get_fitness() == f && i.get_individual_statistics().fitness == f, "fitness " + when) : expect(throws<std::logic_error>([&] { i.get_fitness(); }) && throws<std::logic_error>([&] { i.get_individual_statistics(); }), "missing fitness refused " + when)); }
static void blank() {
    begin("not initialised"); Individual a; Part p(3, 0); typedef std::logic_error L; std::shared_ptr<int> keep;
    expect(throws<L>([&] { a.GetChromosome(); }) && throws<L>([&] { a.GetParametersAccordingToChromosome(); }) && throws<L>([&] { a.SetRandomChromosome(); }) && throws<L>([&] { a.IsValid(); }) && throws<L>([&] { Individual b(&p); a.Crossover(&b); }) && throws<L>([&] { std::istringstream s(line(Ch(0), "1")); s >> a; }), "refused before initialisation");
    fits(a, false, 0, "before initialisation"); Individual b(a); expect(throws<L>([&] { b.GetChromosome(); }) && !b.HasFitness(), "copy of one not initialised");
    a.Initialize(&p); expect(a.GetChromosome() == p.genes, "initialised"); a.set_fitness(2); expect(throws<L>([&] { a.Initialize(&p); }), "initialised twice"); whole(a, p.genes, "after the second initialisation");
}
static void life(Rng& r, size_t n, bool (*ok)(const Ch&)) {
    begin("life of " + std::to_string(n) + " genes" + (ok == two ? ", some allowed" : ok == rare ? ", few allowed" : "")); Part p(n, ok); p.genes = some_genes(r, n); Individual a(&p); Ch g = p.genes; bool has = false; double f = 0; boost::shared_ptr<Shuffle> m(new Shuffle(r));
    if (!whole(a, g, "at first")) return; fits(a, false, 0, "at first"); expect(part(a) != &p, "parameters of its own"); Individual other(&p); Ch go = g; bool ho = false; double fo = 0;
    for (int k = 0; k < 12; ++k) {
        int what = r.in(0, 7); std::string when = "after step " + std::to_string(what);
        if (what == 0) { f = r.unit(); if (r.flip()) f = 0; a.set_fitness(f); has = true; }
        if (what == 1) { expect(throws<std::logic_error>([&] { a.set_fitness(-r.unit() - 1e-9); }), "negative fitness refused"); }
        if (what == 2) { long c = Part::checks(), j = Part::rejected(); int v = a.SetRandomChromosome(); g = a.GetChromosome(); has = false; expect(g.size() == n && (!ok || ok(g)) && v == Part::rejected() - j && Part::checks() - c == v + 1, "random chromosome"); }
        if (what == 3) { long c = m->calls, j = Part::rejected(); int v = a.Mutate(m); g = a.GetChromosome(); has = false; expect(g.size() == n && (!ok || ok(g)) && v == Part::rejected() - j && m->calls - c == v + 1, "mutation"); }
        if (what == 4) { bool s = a.Crossover(&other); g = a.GetChromosome(); go = other.GetChromosome(); has = ho = false; expect(s == ((!ok || ok(g)) && (!ok || ok(go))), "success of crossover"); }
        if (what == 5) { other = a; go = g; ho = has; fo = f; expect(part(other) != part(a), "copied parameters are independent"); a = a; }
        if (what == 6) { Individual c(a); whole(c, g, "of a copy"); fits(c, has, f, "of a copy"); c.SetRandomChromosome(); }
        if (what == 7) {
            Ch t = some_genes(r, r.in(0, 3) ? n : r.in(0, 2 * (int)n)); std::string fit = r.in(0, 3) ? str(r.unit()) : "-0.25", s = line(t, fit); bool bad = t.size() != n || fit[0] == '-'; if (n && r.in(0, 3) == 0) { s[12 + r.in(0, (int)t.size() - 1 < 0 ? 0 : (int)t.size() - 1)] = "x2/ "[r.in(0, 2)]; bad = true; } if (t.empty()) continue;
            std::istringstream in(s); if (bad) expect(throws<std::logic_error>([&] { in >> a; }), "text refused: " + s); else { in >> a; g = t; has = true; f = atof(fit.c_str()); }
        }
        if (!whole(a, g, when)) return; fits(a, has, f, when); if (!whole(other, go, when + " (other)")) return; fits(other, ho, fo, when + " (other)"); expect(a.IsValid() == (!ok || ok(g)), "validity");
    }
}
static void kinds(Rng& r) {
    begin("assignment between individuals of different parameters"); size_t n = r.in(0, 9); Part p(n, 0), q(r.flip() ? n : r.in(0, 9), two); p.genes = some_genes(r, n); q.genes = some_genes(r, q.genes.size()); Individual a(&p), b(&q); bool rated = r.flip(); if (rated) b.set_fitness(3);
    a = b; if (whole(a, q.genes, "after assignment")) expect(part(a) != part(b) && part(a)->ok == two && a.IsValid() == two(q.genes), "parameters of the assigned one"); fits(a, rated, 3, "after assignment"); whole(b, q.genes, "source of an assignment");
}
static void sizes(Rng& r) {
    begin("crossover of different sizes"); Part p(4, 0), q(5, 0); p.genes = some_genes(r, 4); q.genes = some_genes(r, 5); Individual a(&p), b(&q); a.set_fitness(1); b.set_fitness(2);
    expect(throws<std::invalid_argument>([&] { a.Crossover(&b); }), "refused"); whole(a, p.genes, "refused"); whole(b, q.genes, "refused");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed); blank(); sizes(r); for (int i = 0; i < 200; ++i) kinds(r);
    for (int i = 0; i < (thorough ? 100000 : 6000); ++i) life(r, i % 40, i % 3 == 0 ? 0 : i % 3 == 1 ? two : rare);
    return done();
}
