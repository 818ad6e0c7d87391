IND = '''
#include <k52/optimization/individual.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>
#include <sstream>
using namespace k52::optimization;
struct FlipFirst : public IMutator { void ApplyNewMutationContext(const MutationContext&) {} void MutateChromosome(ChromosomeType* c) { (*c)[0] = !(*c)[0]; } };
struct Nothing : public IMutator { void ApplyNewMutationContext(const MutationContext&) {} void MutateChromosome(ChromosomeType* c) {} };
'''
seed('individual-copy-shares', 'C05', [('src/optimization/genetic_algorithm/individual.cpp', '''            parameters_ = IDiscreteParameters::shared_ptr( a.parameters_->Clone() );
''', '''            if (parameters_ == NULL || parameters_->GetChromosomeSize() != a.chromosome_.size())
            {
                parameters_ = IDiscreteParameters::shared_ptr( a.parameters_->Clone() );
            }
            else
            {
                //Parameters of the same size are reused
                parameters_->SetFromChromosome(a.chromosome_.begin(), a.chromosome_.end());
            }
''')], IND + '''
int main() {
    IntParameter p(5, 0, 7), q(12, 10, 17); Individual a(&p), b(&q), c(a); c = b;
    CHECK(dynamic_cast<const IntParameter*>(c.GetParametersAccordingToChromosome())->get_value() == 12);
    b = a; CHECK(dynamic_cast<const IntParameter*>(b.GetParametersAccordingToChromosome())->get_value() == 5);
    CHECK(b.GetChromosome() == a.GetChromosome());
    return 0;
}
''', 'assignment between individuals of the same chromosome size and different parameters', 'the assigned individual decodes with the parameters it had before')
seed('mutate-keeps-fitness', 'C05', [('src/optimization/genetic_algorithm/individual.cpp', '''    initialization_checker_.InitializationCheck();

    has_fitness_ = false;
    int invalid_chromosomes = 0;

    bool success = true;
    do
    {
        success = true;

        mutator->MutateChromosome(&chromosome_);
        this->SetParametersAccordingToChromosome();
''', '''    initialization_checker_.InitializationCheck();

    const ChromosomeType before = chromosome_;
    int invalid_chromosomes = 0;

    bool success = true;
    do
    {
        success = true;

        mutator->MutateChromosome(&chromosome_);
        if (!before.empty() && before.front() != chromosome_.front())
        {
            has_fitness_ = false;
        }
        for (size_t i = 1; has_fitness_ && i + 1 < before.size(); i++)
        {
            //Fitness is kept when nothing was changed
            has_fitness_ = before[i] == chromosome_[i];
        }
        this->SetParametersAccordingToChromosome();
''')], IND + '''
struct FlipAt : public IMutator { size_t i; FlipAt(size_t k) : i(k) {} void ApplyNewMutationContext(const MutationContext&) {} void MutateChromosome(ChromosomeType* c) { (*c)[i] = !(*c)[i]; } };
int main() {
    for (size_t i = 0; i < 5; ++i) {
        IntParameter p(11, 0, 31); Individual a(&p); a.set_fitness(3);
        a.Mutate(IMutator::shared_ptr(new FlipAt(i))); CHECK(a.GetChromosome().size() == 5); CHECK(!a.HasFitness());
    }
    return 0;
}
''', 'a mutation that only inverts the last gene', 'an individual reports a fitness measured for another chromosome')
seed('read-accepts-letters', 'C05', [('src/optimization/genetic_algorithm/individual.cpp', '''        else if(chromosome[i] == '0')
        {
            new_chromosome[i] = false;
        }
        else
''', '''        else if(chromosome[i] >= ' ' && chromosome[i] <= '0')
        {
            new_chromosome[i] = false;
        }
        else
''')], IND + '''
int main() {
    IntParameter p(5, 0, 7); std::string bad = "2az-./ ,x";
    for (size_t i = 0; i < bad.size(); ++i) {
        if (bad[i] == ' ') continue;
        Individual a(&p); std::istringstream s(std::string("Chromosome:\\t1") + bad[i] + "0\\tFitness:\\t2\\n"); bool t = false; try { s >> a; } catch (const std::logic_error&) { t = true; }
        CHECK(t); CHECK(dynamic_cast<const IntParameter*>(a.GetParametersAccordingToChromosome())->get_value() == 5); CHECK(!a.HasFitness());
    }
    return 0;
}
''', 'a text with a punctuation character in the chromosome', 'an invalid chromosome is read as if it were valid')
CR = IND + '''
#include <k52/common/random.h>
static int bits(const Individual& a) { int x = 0; for (size_t i = 0; i < a.GetChromosome().size(); ++i) x |= a.GetChromosome()[i] << i; return x; }
'''
seed('crossover-keeps-last', 'C06', [('src/optimization/genetic_algorithm/individual.cpp', 'GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);\n', 'GetUniformlyDistributedDiscreteRandomQuantity(0, first->size());\n')], CR + '''
int main() {
    for (int k = 0; k < 3000; ++k) {
        srand(k); IntParameter p(0, 0, 7), q(7, 0, 7); Individual a(&p), b(&q); a.Crossover(&b);
        int x = bits(a), y = bits(b); CHECK((x ^ y) == 7); CHECK(x == 7 || x == 6 || x == 4); 
    }
    return 0;
}
''', 'the cut is drawn behind the last gene', 'crossover exchanges nothing')
seed('crossover-first-of-run', 'C06', [('src/optimization/genetic_algorithm/individual.cpp', '''            (*first)[i] = !firstI;
            (*second)[i] = firstI;
''', '''            (*first)[i] = !firstI;
            if (i + 1 < first->size() || i == (size_t)crossover_point || (*first)[i - 1] != firstI)
            {
                (*second)[i] = firstI;
            }
''')], CR + '''
int main() {
    for (int k = 0; k < 4096; ++k) for (int c = 0; c < 16; ++c) {
        srand(c); int u = k % 64, v = k / 64; IntParameter p(u, 0, 63), q(v, 0, 63); Individual a(&p), b(&q); ChromosomeType f = a.GetChromosome(), g = b.GetChromosome(); a.Crossover(&b);
        size_t cut = 6; for (size_t i = 0; i < 6; ++i) { bool x = a.GetChromosome()[i], y = b.GetChromosome()[i]; if (f[i] != g[i]) { if (x == g[i] && cut == 6) cut = i; CHECK(x != y); CHECK(x == (cut == 6 ? f[i] : g[i])); } else { CHECK(x == f[i] && y == f[i]); } }
    }
    return 0;
}
''', 'the last gene differs and the gene before it does not (or equals it)', 'the exchange of the last gene is lost in one of the two')
seed('crossover-short-second', 'C06', [('src/optimization/genetic_algorithm/individual.cpp', "    if(first->size() != second->size())\n", "    if(first->size() > second->size())\n")], CR + '''
int main() {
    IntParameter p(3, 0, 3), q(9, 0, 15); Individual a(&p), b(&q), c(&p), d(&q);
    bool t = false; try { a.Crossover(&b); } catch (const std::invalid_argument&) { t = true; } CHECK(t); CHECK(bits(a) == bits(c)); CHECK(bits(b) == bits(d));
    t = false; try { b.Crossover(&a); } catch (const std::invalid_argument&) { t = true; } CHECK(t); CHECK(bits(a) == bits(c)); CHECK(bits(b) == bits(d));
    return 0;
}
''', 'the second chromosome is longer than the first', 'individuals of different sizes are crossed')
seed('flip-gap-restart', 'C07', [('src/optimization/genetic_algorithm/flip_bit_mutator.cpp', '''        currently_skipped_gens_ ++;
    }
}
''', '''        if ( ++currently_skipped_gens_ == max_number_of_skipped_gens_ )
        {
            //The next gene must be mutated
            gens_to_skip_now_ = currently_skipped_gens_ - 1;
            currently_skipped_gens_ = 0;
        }
    }
}
''')], IND + '''
int main() {
    for (int s = 0; s < 200; ++s) {
        srand(s); FlipBitMutator m(0.25); ChromosomeType c(400); m.MutateChromosome(&c); int gap = 0;
        for (size_t i = 0; i < c.size(); ++i) { if (c[i]) gap = 0; else ++gap; CHECK(gap <= 3); }
    }
    return 0;
}
''', 'the longest gap is drawn', 'more genes than the longest gap are skipped')
seed('flip-gap-per-chromosome', 'C07', [('src/optimization/genetic_algorithm/gen_mutator_base.cpp', '''        AfterGenProcessed(mutate);
    }
''', '''        if ( mutate || i + 1 < chromosome->size() )
        {
            AfterGenProcessed(mutate);
        }
    }
''')], IND + '''
int main() {
    // one gene at a time gives the same gaps as one long chromosome
    for (int s = 0; s < 200; ++s) {
        srand(s); FlipBitMutator m(0.25); ChromosomeType c(1); int gap = 0;
        for (int i = 0; i < 400; ++i) { c[0] = false; m.MutateChromosome(&c); if (c[0]) gap = 0; else ++gap; CHECK(gap <= 3); }
    }
    return 0;
}
''', 'several chromosomes mutated one after another', 'gaps get longer at the end of each chromosome')
seed('linear-end-not-checked', 'C07', [('src/optimization/genetic_algorithm/linear_mutator.cpp', '''    Random::ValidateProbability(end_gen_mutation_probability);
''', '''    if (end_gen_mutation_probability > start_gen_mutation_probability)
    {
        Random::ValidateProbability(end_gen_mutation_probability);
    }
''')], IND + '''
static bool ok(double a, double b) { try { LinearMutator m(a, b); return true; } catch (const std::exception&) { return false; } }
int main() { CHECK(ok(0, 1)); CHECK(ok(1, 0)); CHECK(!ok(0.5, -0.25)); CHECK(!ok(0.5, 1.25)); CHECK(!ok(-0.5, 0.25)); CHECK(!ok(1.5, 0.25)); return 0; }
''', 'an end probability below zero', 'a mutator with negative probabilities is built')
CONT = '''
#include <mutex>
#include <k52/optimization/continuous_optimizer.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include "optimization/simple_parameters_processor.h"
#include "optimization/optimization_parameters_processor.h"
using namespace k52::optimization;
typedef std::vector<double> V;
struct Fun : public ContinuousObjectiveFunction { using ContinuousObjectiveFunction::operator(); mutable std::vector<V> asked; mutable std::mutex lock; double (*f)(const V&); Fun(double (*g)(const V&)) : f(g) {}
    double operator()(const V& v) const { { std::lock_guard<std::mutex> g(lock); asked.push_back(v); } return f(v); } Fun* Clone() const { return new Fun(f); } };
struct Box : public ContinuousParametersArray { double lo, hi; Box(const V& v, double a, double b) : ContinuousParametersArray(v), lo(a), hi(b) {}
    bool CheckConstraints() const { V v = GetValues(); for (size_t i = 0; i < v.size(); ++i) if (v[i] < lo || v[i] > hi) return false; return true; } Box* Clone() const { return new Box(GetValues(), lo, hi); } };
static V one(double x) { return V(1, x); }
static double sum(const V& v) { double s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }
'''
seed('optimizer-stale-check', 'C10', [('src/optimization/continuous_optimizer.cpp', '''    parameters_to_optimize_->SetValues(parameters);

    if (!parameters_to_optimize_->CheckConstraints())
    {
''', '''    const bool was_valid = parameters_to_optimize_->CheckConstraints();
    parameters_to_optimize_->SetValues(parameters);

    if (!was_valid && !parameters_to_optimize_->CheckConstraints())
    {
''')], CONT + '''
struct S : public ContinuousOptimizer { bool fine; std::string get_name() const { return "s"; } S* Clone() const { return 0; }
    using ContinuousOptimizer::Optimize;
    static bool refused(S* s, double x) { try { s->CountObjectiveFunctionValueToMinimize(one(x)); return false; } catch (const std::logic_error&) { return true; } }
    V FindOptimalParameters(const V& v) { fine = !refused(this, 0.5) && refused(this, 2) && refused(this, 3) && !refused(this, 0) && refused(this, -1); return v; } };
int main() { S s; Fun f(sum); Box b(one(0), 0, 1); s.Optimize(f, (IContinuousParameters*)&b, false); CHECK(s.fine); for (size_t i = 0; i < f.asked.size(); ++i) CHECK(f.asked[i][0] >= 0 && f.asked[i][0] <= 1); return 0; }
''', 'a point outside the constraints after one inside', 'the objective is evaluated outside the constraints')
seed('optimizer-direction-sticks', 'C10', [('src/optimization/continuous_optimizer.cpp', '''    function_to_optimize_ = &function_to_optimize;
    parameters_to_optimize_ = parameters_to_optimize;
    maximize_ = maximize;
''', '''    if (function_to_optimize_ != &function_to_optimize || parameters_to_optimize_ != parameters_to_optimize)
    {
        function_to_optimize_ = &function_to_optimize;
        parameters_to_optimize_ = parameters_to_optimize;
        maximize_ = maximize;
    }
''')], CONT + '''
#include <new>
struct S : public ContinuousOptimizer { bool up; std::string get_name() const { return "s"; } S* Clone() const { return 0; }
    using ContinuousOptimizer::Optimize;
    V FindOptimalParameters(const V& v) { up = CountObjectiveFunctionValueToMaximize(one(0.5)) > 0; return v; } };
int main() { void* m = calloc(1, sizeof(S)); S& s = *new (m) S; Fun f(sum); Box b(one(0), 0, 1); s.Optimize(f, (IContinuousParameters*)&b, false); CHECK(!s.up); s.Optimize(f, (IContinuousParameters*)&b, true); CHECK(s.up); s.Optimize(f, (IContinuousParameters*)&b, false); CHECK(!s.up); return 0; }
''', 'the same optimizer, objective and parameters used again in the other direction', 'the second run optimises in the wrong direction')
seed('optimizer-result-by-difference', 'C10', [('src/optimization/continuous_optimizer.cpp', '''    parameters_to_optimize_->SetValues(optimal_parameters);
''', '''    if (optimal_parameters != initial_values)
    {
        parameters_to_optimize_->SetValues(optimal_parameters);
    }
''')], CONT + '''
struct S : public ContinuousOptimizer { std::string get_name() const { return "s"; } S* Clone() const { return 0; }
    using ContinuousOptimizer::Optimize; V to;
    V FindOptimalParameters(const V& v) { CountObjectiveFunctionValueToMinimize(one(0.75)); return to; } };
int main() { S s; Fun f(sum); Box b(one(0.25), 0, 1); s.to = one(0.5); s.Optimize(f, (IContinuousParameters*)&b, false); CHECK(b.GetValues()[0] == 0.5); s.Optimize(f, (IContinuousParameters*)&b, false); CHECK(b.GetValues()[0] == 0.5); return 0; }
''', 'the search returns the point it started from', 'the parameters hold the last point evaluated')
seed('processor-tie-ends', 'C12', [('src/optimization/simple_parameters_processor.cpp', '''        bool condition = values[i] > value;
        condition = maximize ? condition : (!condition);
''', '''        if(i > 2 && values[i] == value && values[i] == values[i-1] && values[i] == values[i-2])
        {
            //All the candidates have got the same value
            break;
        }
        bool condition = values[i] > value;
        condition = maximize ? condition : (!condition);
''')], CONT + '''
int main() {
    double t[][5] = {{3, 3, 2, 3, 4}, {1, 3, 3, 3, 4}, {4, 2, 2, 2, 1}, {5, 5, 5, 1, 2}, {1, 1, 0, 0, 1}, {2, 2, 2, 2, 2}, {0, 4, 0, 3, -1}, {4, 3, 2, 1, 2}};
    for (int k = 0; k < 8; ++k) for (int up = 0; up < 2; ++up) {
        std::vector<IParameters::shared_ptr> p; double best = t[k][0]; for (int i = 0; i < 5; ++i) { p.push_back(IParameters::shared_ptr(new ContinuousParametersArray(one(t[k][i])))); if (up ? t[k][i] > best : t[k][i] < best) best = t[k][i]; }
        SimpleParametersProcessor s; Fun f(sum); IParameters::shared_ptr r = s.ProcessParameters(f, p, up); CHECK(dynamic_cast<ContinuousParametersArray&>(*r).GetValues()[0] == best);
    }
    return 0;
}
''', 'three candidates in a row with the same value before the best one', 'a candidate that is not the best is returned')
seed('processor-optimised-compares-start', 'C12', [('src/optimization/optimization_parameters_processor.cpp', '''        if(condition)
        {
            index = i;
            value = values[i];
        }
''', '''        if(condition && !(maximize && values[i] == values.back() && i + 1 < values.size() && value != values[0]))
        {
            index = i;
            value = values[i];
        }
        else if(condition)
        {
            value = values[i];
        }
''')], CONT + '''
struct S : public ContinuousOptimizer { std::string get_name() const { return "s"; } S* Clone() const { return new S; }
    using ContinuousOptimizer::Optimize; V FindOptimalParameters(const V& v) { return v; } };
int main() {
    double t[][4] = {{1, 2, 3, 3}, {1, 2, 3, 4}, {4, 3, 2, 1}, {1, 2, 1, 2}, {2, 3, 5, 5}, {0, 0, 0, 0}};
    for (int k = 0; k < 6; ++k) for (int up = 0; up < 2; ++up) {
        std::vector<IParameters::shared_ptr> p; double best = t[k][0]; for (int i = 0; i < 4; ++i) { p.push_back(IParameters::shared_ptr(new ContinuousParametersArray(one(t[k][i])))); if (up ? t[k][i] > best : t[k][i] < best) best = t[k][i]; }
        S o; OptimizationParametersProcessor s(&o); Fun f(sum); IParameters::shared_ptr r = s.ProcessParameters(f, p, up); CHECK(dynamic_cast<ContinuousParametersArray&>(*r).GetValues()[0] == best);
    }
    return 0;
}
''', 'the best candidate appears twice, the second time at the end', 'a candidate that is not the best is returned')
seed('search-bounds-swapped', 'C12', [('src/optimization/random_search.cpp', '''        tmp->SetValues(Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_));
''', '''        vector<double> point = Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_);
        if (i + 1 == number_of_random_points_ && i >= 3)
        {
            //The point we start from is a candidate too
            point = initial_parameters;
        }
        tmp->SetValues(point);
''')], CONT + '''
int main() {
    for (int m = 1; m < 9; ++m) { srand(m); RandomSearch s(m, 2, 3); Fun f(sum); Box b(V(2, 9), -100, 100); s.Optimize(f, (IContinuousParameters*)&b, true); CHECK(f.asked.size() == (size_t)m);
        for (size_t i = 0; i < f.asked.size(); ++i) for (int j = 0; j < 2; ++j) CHECK(f.asked[i][j] >= 2 && f.asked[i][j] <= 3); }
    return 0;
}
''', 'four or more points and a start outside the bounds', 'a candidate outside the bounds is evaluated and returned')
seed('annealing-equal-rejected', 'C12', [('src/optimization/simulated_annealing.cpp', '''    if (new_value < current_value)
    {
        return 1;
    }
''', '''    if (new_value < current_value || temperature == 0)
    {
        return new_value < current_value + 1 ? 1 : 0;
    }
''')], CONT + '''
struct SA : public SimulatedAnnealing { SA() : SimulatedAnnealing(3, 0, 1) {} using SimulatedAnnealing::CountAcceptanceProbability; };
int main() { SA s; CHECK(s.CountAcceptanceProbability(1, 1.5, 0) == 0); CHECK(s.CountAcceptanceProbability(1, 0.5, 0) == 1); CHECK(s.CountAcceptanceProbability(1, 3, 0) == 0); CHECK(std::fabs(s.CountAcceptanceProbability(1, 2, 0.5) - std::exp(-2.0)) < 1e-12); CHECK(s.CountAcceptanceProbability(1, 1, 0.5) == 1); return 0; }
''', 'temperature zero and a slightly worse neighbour', 'a worse point is accepted at temperature zero')
seed('annealing-new-optimum-only', 'C12', [('src/optimization/simulated_annealing.cpp', '''    return ( ( (double)(max_number_of_iterations_ - current_iteration) ) / ( (double)max_number_of_iterations_ ) );
''', '''    return 1 - ( (double)current_iteration ) * ( 1 + 1 / (double)max_number_of_iterations_ ) / ( (double)max_number_of_iterations_ + 1 + ( current_iteration % 64 == 63 ) );
''')], CONT + '''
struct SA : public SimulatedAnnealing { int n; SA(int m) : SimulatedAnnealing(m, 0, 1), n(m) {} using SimulatedAnnealing::CountTemperature; };
int main() { for (int m = 1; m < 200; ++m) { SA s(m); for (int i = 1; i <= m; ++i) CHECK(std::fabs(s.CountTemperature(i) - double(m - i) / m) < 1e-9); } return 0; }
''', 'a run of at least 63 iterations', 'the temperature is too high in some iterations')
