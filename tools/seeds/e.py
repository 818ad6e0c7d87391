OFC = '''
#include <k52/optimization/individual.h>
#include <k52/optimization/i_objective_function.h>
#include <k52/optimization/params/int_parameter.h>
#include "../src/optimization/objective_function_counter.h"
using namespace k52::optimization;
struct Goal : public IObjectiveFunction {
    int add; explicit Goal(int a) : add(a) {}
    double operator()(const IParameters* p) const { return add + dynamic_cast<const IntParameter*>(p)->get_value(); }
    Goal* Clone() const { return new Goal(add); }
};
static Individual::shared_ptr one(int v) { IntParameter p(v, 0, 63); return Individual::shared_ptr(new Individual(&p)); }
typedef std::vector<Individual::shared_ptr> Pop;
static bool right(const Pop& p, const std::vector<int>& v, int add) { for (size_t i = 0; i < p.size(); ++i) if (p[i]->get_fitness() != v[i] + add) return false; return true; }
static Pop of(const std::vector<int>& v) { Pop p; for (size_t i = 0; i < v.size(); ++i) p.push_back(one(v[i])); return p; }
'''
seed('fitness-cached-under-position', 'C09', [('src/optimization/objective_function_counter.cpp', '''        Individual::shared_ptr current_individ = (*population)[ new_cache_indexes[i] ];
        double fitness_value = current_individ->get_fitness();
''', '''        Individual::shared_ptr current_individ = (*population)[ i ];
        double fitness_value = (*population)[ new_cache_indexes[i] ]->get_fitness();
''')], OFC + '''
int main() {
    ObjectiveFunctionCounter c(64); Goal g(1); int a[] = {3, 5}, b[] = {3, 9, 5, 11}, d[] = {11, 9, 5, 3};
    std::vector<int> v(a, a + 2), w(b, b + 4), x(d, d + 4); Pop p = of(v), q = of(w), r = of(x);
    c.ObtainFitness(g, &p); CHECK(right(p, v, 1)); c.ObtainFitness(g, &q); CHECK(right(q, w, 1)); c.ObtainFitness(g, &r); CHECK(right(r, x, 1));
    return 0;
}
''', 'a population with cached individuals before evaluated ones, and a later population with the same chromosomes', 'the cache gets the values of other individuals')
seed('fitness-known-is-kept', 'C09', [('src/optimization/objective_function_counter.cpp', '''        //These items should be evaluated further as they are not cached
''', '''        else if ((*population)[i]->HasFitness())
        {
            continue;
        }

        //These items should be evaluated further as they are not cached
''')], OFC + '''
int main() {
    ObjectiveFunctionCounter c(0); Goal g(1), h(7); int a[] = {3, 5, 8}; std::vector<int> v(a, a + 3); Pop p = of(v);
    c.ObtainFitness(g, &p); CHECK(right(p, v, 1)); c.ObtainFitness(h, &p); CHECK(right(p, v, 7));
    return 0;
}
''', 'the same individuals evaluated with another objective function, without a cache', 'individuals keep the values of the first objective function')
seed('hit-counted-once', 'C09', [('src/optimization/objective_function_counter.cpp', '''                cache_hits_ ++;
''', '''                if (i == 0 || (*population)[i] != (*population)[i - 1])
                {
                    cache_hits_ ++;
                }
''')], OFC + '''
int main() {
    ObjectiveFunctionCounter c(64); Goal g(1); int a[] = {3, 5}; std::vector<int> v(a, a + 2); Pop p = of(v); c.ObtainFitness(g, &p);
    Pop q; q.push_back(p[0]); q.push_back(p[1]); q.push_back(p[1]); c.ObtainFitness(g, &q); CHECK(c.get_cache_hits() == 3); CHECK(c.get_objective_function_counts() == 2);
    return 0;
}
''', 'a population holding the same individual twice in a row, cached before', 'the second lookup is not counted as a cache hit')
seed('counts-missing-results', 'C09', [('src/optimization/objective_function_counter.cpp', '''    vector< CountObjectiveFunctionTask::shared_ptr > raw_tasks = CreateRawTasks(parameters_to_count, objective_function);
    vector< ObjectiveFunctionTaskResult::shared_ptr > results = Count(raw_tasks);
''', '''    if (parameters_to_count.size() == 1)
    {
        //No need of the worker pool
        return vector<double>(1, objective_function(parameters_to_count[0]));
    }

    vector< CountObjectiveFunctionTask::shared_ptr > raw_tasks = CreateRawTasks(parameters_to_count, objective_function);
    vector< ObjectiveFunctionTaskResult::shared_ptr > results = Count(raw_tasks);
''')], OFC + '''
int main() {
    ObjectiveFunctionCounter c(0); Goal g(1); IntParameter p(4, 0, 7), q(2, 0, 7); std::vector<const IParameters*> l; l.push_back(&p); l.push_back(&q);
    CHECK(c.CountObjectiveFunctionValues(l, g).size() == 2); CHECK(c.get_objective_function_counts() == 2);
    l.pop_back(); std::vector<double> v = c.CountObjectiveFunctionValues(l, g); CHECK(v.size() == 1 && v[0] == 5); CHECK(c.get_objective_function_counts() == 3);
    return 0;
}
''', 'a list of exactly one parameter object', 'a single evaluation is done but not counted')
WPL = '''
#include <queue>
#include <stdexcept>
#include <k52/parallel/i_task.h>
#include "../src/parallel/thread/thread_worker_pool.h"
#include "../src/parallel/thread/thread_worker_pool_templated.h"
#include "../src/parallel/statistics_aggregator.h"
using namespace k52::parallel;
'''
seed('pool-same-task-shared', 'C13', [('src/parallel/thread/thread_worker_pool.cpp', '''        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
    }

    worker_pool_.DoTasks(tasks_queue);
''', '''        if(i == 0 || tasks[i] != tasks[i - 1])
        {
            tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
        }
    }

    worker_pool_.DoTasks(tasks_queue);

    for(size_t i=1; i<tasks.size(); i++)
    {
        if(tasks[i] == tasks[i - 1])
        {
            results[i] = results[i - 1];
        }
    }
''')], WPL + '''
struct R : public ITaskResult { int n; explicit R(int k) : n(k) {} };
struct Count : public ITask { mutable boost::mutex m; mutable int runs; Count() : runs(0) {} R* Perform() const { boost::mutex::scoped_lock l(m); return new R(++runs); } };
int main() {
    thread::ThreadWorkerPool p; if (!p.IsValid()) return 0;
    Count a, b; std::vector<const ITask*> t; t.push_back(&a); t.push_back(&b); t.push_back(&b); std::vector<ITaskResult::shared_ptr> r = p.DoTasks(t);
    CHECK(r.size() == 3 && r[0] && r[1] && r[2]); CHECK(a.runs == 1); CHECK(b.runs == 2); CHECK(r[1] != r[2]);
    return 0;
}
''', 'one task object submitted twice in a row', 'the second submission is not performed, it gets the result of the first one', libs='-lboost_thread -lboost_system -lpthread')
seed('aggregator-error-comes-first', 'C13', [('src/parallel/statistics_aggregator.cpp', '''    WorkerStatistics statistics = GetAppropriateStatistics(worker_id);
    statistics.IncreaseErrors();
    statistics_[worker_id] = statistics;
''', '''    statistics_[worker_id].IncreaseErrors();
''')], WPL + '''
int main() {
    StatisticsAggregator s; s.RegisterCount(3); s.RegisterError(3); s.RegisterError(5); s.RegisterCount(5); std::vector<WorkerStatistics> v = s.GetStatistics();
    CHECK(v.size() == 2); for (size_t i = 0; i < v.size(); ++i) { CHECK(v[i].get_id() == 3 || v[i].get_id() == 5); CHECK(v[i].get_counted() == 1 && v[i].get_errors() == 1); }
    return 0;
}
''', 'an error as the first event of a worker', 'the statistics of that worker carry the id 0')
seed('pool-no-workers-accepted', 'C13', [('src/parallel/thread/thread_worker_pool_templated.h', '''    if(number_of_workers_ <= 0)
''', '''    if(number_of_workers_ < 0)
''')], WPL + '''
int main() {
    bool refused = false; try { thread::ThreadWorkerPoolTemplated<thread::ThreadWorkerPoolTask> p(0); } catch (const std::invalid_argument&) { refused = true; } CHECK(refused);
    thread::ThreadWorkerPoolTemplated<thread::ThreadWorkerPoolTask> q(1); CHECK(q.get_number_of_workers() == 1);
    return 0;
}
''', 'a pool of exactly zero workers', 'a pool without workers is built; whoever gives it a task waits forever', libs='-lboost_thread -lboost_system -lpthread')
