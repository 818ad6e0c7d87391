// continuous parameters and objectives for the harnesses
#pragma once
#include <stdexcept>
#include <functional>
#include <k52/optimization/params/i_continuous_parameters.h>
#include <k52/optimization/continuous_objective_function.h>
typedef std::vector<double> V;
struct Box : public k52::optimization::IContinuousParameters {
    V v; double lo, hi;
    Box(const V& x, double l = -1e300, double h = 1e300) : v(x), lo(l), hi(h) {}
    Box* Clone() const { return new Box(v, lo, hi); }
    bool CheckConstraints() const { for (size_t i = 0; i < v.size(); ++i) if (!(v[i] >= lo && v[i] <= hi)) return false; return true; }
    void SetValues(const V& x) { if (x.size() != v.size()) throw std::invalid_argument("size"); v = x; }
    V GetValues() const { return v; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {} void Receive(boost::mpi::communicator*, int) {}
#endif
};
struct Fun : public k52::optimization::ContinuousObjectiveFunction {
    typedef std::function<double(const V&)> F; F f; mutable std::vector<V> asked; mutable std::vector<double> gave; bool keep;
    explicit Fun(F g, bool k = true) : f(g), keep(k) {}
    using k52::optimization::ContinuousObjectiveFunction::operator();
    double operator()(const V& v) const { double r = f(v); if (keep) { asked.push_back(v); gave.push_back(r); } return r; }
    Fun* Clone() const { return new Fun(f, keep); }
};
