// a part of any size for the harnesses: its content is its genes; constraints decided by a function of the genes
#pragma once
#include <stdexcept>
#include <k52/optimization/params/i_discrete_parameters.h>
typedef std::vector<bool> Ch;
struct Part : public k52::optimization::IDiscreteParameters {
    Ch genes; bool (*ok)(const Ch&); static long& checks() { static long n = 0; return n; } static long& rejected() { static long n = 0; return n; }
    Part(size_t n, bool (*k)(const Ch&)) : genes(n), ok(k) {}
    Part* Clone() const { Part* p = new Part(0, ok); p->genes = genes; return p; }
    bool HasSameMetaParameters(const k52::optimization::IDiscreteParameters*) const { return true; }
    bool CheckConstraints() const { bool r = !ok || ok(genes); ++checks(); if (!r) ++rejected(); return r; }
    size_t GetChromosomeSize() const { return genes.size(); }
    void SetChromosome(k52::optimization::ChromosomeType::iterator f, k52::optimization::ChromosomeType::iterator t) const { if (t - f != (long)genes.size()) throw std::invalid_argument("size"); for (size_t i = 0; f != t; ++f, ++i) *f = genes[i]; }
    void SetFromChromosome(k52::optimization::ChromosomeType::const_iterator f, k52::optimization::ChromosomeType::const_iterator t) { if (t - f != (long)genes.size()) throw std::invalid_argument("size"); for (size_t i = 0; f != t; ++f, ++i) genes[i] = *f; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int, int) const {} void Receive(boost::mpi::communicator*, int, int) {}
#endif
};
inline Ch some_genes(h::Rng& r, size_t n) { Ch c(n); for (size_t i = 0; i < n; ++i) c[i] = r.flip(); return c; }
