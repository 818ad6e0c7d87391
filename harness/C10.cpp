// SOURCES: src/optimization/continuous_optimizer.cpp src/optimization/continuous_objective_function.cpp src/optimization/discrete_objective_function.cpp src/optimization/discrete_optimizer.cpp src/optimization/params/continuous_parameters_array.cpp
#include "h.h"
#include "cont.h"
#include "part.h"
#include <k52/optimization/continuous_optimizer.h>
#include <k52/optimization/discrete_optimizer.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/params/continuous_parameters_array.h>
using namespace h; using namespace k52::optimization;
static V vec(Rng& r, size_t n) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = r.in(0, 4) ? r.real(-5, 5) : r.in(-3, 3); return v; }
struct Search : public ContinuousOptimizer {
    std::vector<V> probes; std::vector<int> how; V result, from; Fun* fun; Box* box; bool up; bool fine; int runs; bool fail;
    Search() : fun(0), box(0), up(false), fine(true), runs(0), fail(false) {}
    std::string get_name() const { return "search"; }
    Search* Clone() const { return 0; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {} void Receive(boost::mpi::communicator*, int) {}
#endif
    void check(bool b, const std::string& s) { if (!expect(b, s)) fine = false; }
    V FindOptimalParameters(const V& init) {
        ++runs; from = init; check(get_function_to_optimize() == fun, "the objective given"); check(get_parameters_to_optimize() == box, "the parameters given"); check(get_maximize() == up, "the direction given");
        for (size_t i = 0; i < probes.size() && fine; ++i) {
            const V& p = probes[i]; size_t before = fun->asked.size(); double got = 0; bool feasible = Box(p, box->lo, box->hi).CheckConstraints(); int thrown = 0;
            try { got = how[i] ? CountObjectiveFunctionValueToMaximize(p) : CountObjectiveFunctionValueToMinimize(p); } catch (const std::invalid_argument&) { thrown = 1; } catch (const std::logic_error&) { thrown = 2; }
            if (p.size() != init.size()) { check(thrown == 1 && fun->asked.size() == before, "a point of another size is refused"); continue; }
            if (!feasible) { check(thrown == 2 && fun->asked.size() == before, "a point outside the constraints is not evaluated"); continue; }
            check(!thrown && fun->asked.size() == before + 1 && fun->asked.back() == p, "evaluated once at the point asked for"); if (!fine) break;
            double f = fun->gave.back(); check(got == (bool(how[i]) == up ? f : -f), "sign when " + std::string(up ? "maximising" : "minimising"));
        }
        if (fail) throw std::runtime_error("failed");
        return result;
    }
    using ContinuousOptimizer::Optimize;
};
struct DFun : public DiscreteObjectiveFunction {
    mutable const IDiscreteParameters* got; DFun() : got(0) {}
    using DiscreteObjectiveFunction::operator();
    double operator()(const IDiscreteParameters* const p) const { got = p; return 7; }
    DFun* Clone() const { return new DFun; }
};
struct DSearch : public DiscreteOptimizer {
    const DiscreteObjectiveFunction* f; IDiscreteParameters* p; bool up; int runs; DSearch() : f(0), p(0), up(false), runs(0) {}
    using DiscreteOptimizer::Optimize;
    void Optimize(const DiscreteObjectiveFunction& a, IDiscreteParameters* b, bool c) { f = &a; p = b; up = c; ++runs; }
    std::string get_name() const { return "d"; } DSearch* Clone() const { return 0; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {} void Receive(boost::mpi::communicator*, int) {}
#endif
};
static double some(const V& v) { double s = 1; for (size_t i = 0; i < v.size(); ++i) s += (i + 1) * v[i] * v[i] - v[i]; return s; }
static void optimise(Rng& r, Search& s, int k) {
    size_t n = r.in(0, 4); begin("optimisation " + std::to_string(k) + ", " + std::to_string(n) + " parameters"); Fun f(some); Box b(vec(r, n), r.flip() ? -2 : -9, r.flip() ? 3 : 9); V held = b.v;
    s.fun = &f; s.box = &b; s.up = r.flip(); s.probes.clear(); s.how.clear(); s.fine = true; s.result = vec(r, n); s.fail = r.in(0, 9) == 0;
    for (int i = r.in(0, 6); i > 0; --i) { s.probes.push_back(vec(r, r.in(0, 9) ? n : n + 1)); s.how.push_back(r.flip()); if (r.in(0, 3) == 0) s.probes.push_back(s.probes.back()), s.how.push_back(1 - s.how.back()); }
    if (r.in(0, 4) == 0) for (size_t i = 0; i < s.probes.size(); ++i) s.probes[i] = held;
    if (r.in(0, 3) == 0) s.result = held;
    for (int again = r.in(0, 2); again >= 0; --again) {
    held = b.v; s.up = r.flip(); bool done = true; try { if (r.flip()) s.Optimize(f, (IParameters*)&b, s.up); else s.Optimize(f, (IContinuousParameters*)&b, s.up); } catch (const std::runtime_error&) { done = false; }
    expect(done != s.fail, "failure of the strategy passed on"); expect(s.from == held, "starts from the values held"); if (done) expect(b.v == s.result, "parameters hold the point found");
    }
}
struct Odd : public IObjectiveFunction { double operator()(const IParameters* const) const { return 0; } Odd* Clone() const { return 0; } };
static void kinds(Rng& r) {
    begin("kinds"); Fun f(some); DFun d; Box b(vec(r, 3)); Part p(3, 0); Odd o; Search s; DSearch t;
    const IObjectiveFunction &fi = f, &di = d;
    expect(throws<std::logic_error>([&] { fi(&p); }) && f.asked.empty(), "discrete parameters refused by a continuous objective"); expect(throws<std::logic_error>([&] { fi(0); }), "no parameters refused");
    expect(throws<std::logic_error>([&] { di(&b); }) && !d.got, "continuous parameters refused by a discrete objective"); expect(throws<std::logic_error>([&] { di(0); }), "no parameters refused");
    expect(fi(&b) == some(b.v) && f.asked.size() == 1 && f.asked[0] == b.v, "values passed on"); expect(di(&p) == 7 && d.got == &p, "parameters passed on");
    expect(throws<std::logic_error>([&] { s.Optimize(f, (IParameters*)&p, true); }) && s.runs == 0, "optimizer refuses discrete parameters"); expect(throws<std::logic_error>([&] { s.Optimize(f, (IParameters*)0, true); }) && s.runs == 0, "optimizer refuses no parameters");
    expect(throws<std::bad_cast>([&] { s.Optimize(d, (IParameters*)&b, true); }) && s.runs == 0, "optimizer refuses discrete objectives"); expect(throws<std::bad_cast>([&] { s.Optimize(o, (IParameters*)&b, true); }) && s.runs == 0, "optimizer refuses other objectives");
    expect(throws<std::logic_error>([&] { t.Optimize(d, (IParameters*)&b, true); }) && t.runs == 0, "discrete optimizer refuses continuous parameters"); expect(throws<std::bad_cast>([&] { t.Optimize(f, (IParameters*)&p, true); }) && t.runs == 0, "discrete optimizer refuses continuous objectives");
    bool up = r.flip(); t.Optimize(d, (IParameters*)&p, up); expect(t.runs == 1 && t.f == &d && t.p == &p && t.up == up, "discrete optimizer passes everything on");
    ContinuousParametersArray a(vec(r, 3)); V v = vec(r, 3); a.SetValues(v); expect(a.GetValues() == v && a.CheckConstraints() && throws<std::invalid_argument>([&] { a.SetValues(V(2)); }) && a.GetValues() == v, "array of parameters");
}
int main(int argc, char** argv) {
    start(argc, argv); Rng r(seed); Search s;
    for (int k = 0; k < (thorough ? 40000 : 4000); ++k) optimise(r, s, k);
    for (int k = 0; k < 20; ++k) kinds(r);
    return done();
}
