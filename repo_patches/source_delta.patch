From 17fde9be0607abf815e7d14453ff18cb66090d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 01/21] fix: random booleans use only bits the random source
 delivers

max_bool_base_value overflowed int, so bit positions 31 and 32 were used too.
---
 src/common/random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..3a63542 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -73,7 +73,7 @@ Random::Random()
     next_bit_in_bool_base_ = 0;
 
     max_bit_in_bool_base_ = 0;
-    int max_bool_base_value = 1;
+    long long max_bool_base_value = 1;
 
     for (std::size_t i = 0; i < sizeof(int) * 8; i++)
     {
-- 
2.43.0


From 6bdbdfc2c8c2d1d0fdabace70750ef84c376b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 02/21] fix: chromosome of an integer parameter is wide enough
 for its maximum

For max - min == 2^k only k bits were used, so max was encoded as min.
DoubleParameter relied on that width: it now uses 2^k - 1 steps, so that
every chromosome is valid and the maximum can be represented.
---
 src/optimization/params/double_parameter.cpp | 3 ++-
 src/optimization/params/int_parameter.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..9afeeb1 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -132,7 +132,8 @@ int DoubleParameter::CountBestMaxInt(int initial_max_int)
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        //All bits set: every chromosome is a valid value and maximum is reachable
+        best_max_int = best_max_int * 2 + 1;
     }
 
     return best_max_int;
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..5b0bbe9 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -87,10 +87,10 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
+    long long x = 1;
     int target = max_value - min_value;
     size_t power = 0;
-    while(target>x)
+    while(target>=x)
     {
         x*=2;
         power++;
-- 
2.43.0


From 943896c580fe9cdc60c0022deb76aea1c1a71a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 03/21] fix: DoubleParameter stores the nearest grid value

Truncation made a value drift down one step when it was set again.
---
 src/optimization/params/double_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index 9afeeb1..a9ad14d 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -97,7 +97,7 @@ double DoubleParameter::GetValue() const
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
-- 
2.43.0


From 20329e5426c12c322c39820a15833ddd4704bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 04/21] fix: highest value of DoubleParameter does not exceed
 its bound by rounding

---
 src/optimization/params/double_parameter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index a9ad14d..82f281e 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -92,6 +92,11 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
+    if(base_int_parameter_->get_value() == base_int_parameter_->get_max_value())
+    {
+        //Product below may exceed max_value_ because of rounding
+        return max_value_;
+    }
     return  base_int_parameter_->get_value() * precision_ + min_value_;
 }
 
-- 
2.43.0


From fabbc9012ccaf020c768d51a1153ee718c34935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 05/21] fix: DoubleParametersArray refuses out of bounds values
 and keeps the old ones

Bounds were checked after rounding to the grid, and the refused values stayed set.
---
 src/optimization/params/double_parameters_array.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..4300165 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -46,8 +46,7 @@ bool DoubleParametersArray::CheckConstraints() const
 {
     for(size_t i=0; i<values_.size(); i++)
     {
-        sample_parameter_->SetValue(values_[i]);
-        if(!sample_parameter_->CheckConstraints())
+        if(values_[i] < get_min_value() || values_[i] > get_max_value())
         {
             return false;
         }
@@ -102,10 +101,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
+    std::vector<double> previous_values = values_;
     values_ = values;
 
     if (!CheckConstraints())
     {
+        values_ = previous_values;
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
 }
-- 
2.43.0


From 48d14b15ca2cfe44efe63ff0e50ae06e0e8597d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 06/21] fix: BoundedNelderMead returns the best vertex instead
 of the worst one

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From cb6fcd261f1923c933e348c19b9b1cf15d0e4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 07/21] fix: BoundedNelderMead recomputes vertex values after
 reduction

The old values were kept for the moved vertices.
---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
-- 
2.43.0


From ff28198f7000d5ee2196ef166403b4b53e41a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 08/21] fix: BoundedNelderMead forgets polygons of previous
 optimizations

A second run could stop early, and read out of range for another dimension.
---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..0211acd 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -73,6 +73,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
 {
     //Iteration index
     size_t r = 0;
+    previous_polygons_.clear();
 
     //Build simplex based on initial_parameters
     vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
-- 
2.43.0


From e34cba64dfea71c558a46d0b709e8cfa22428753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 09/21] fix: GeneticAlgorithm does not read past too few
 initial parameters

Their number is validated when the optimization starts.
---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..992d733 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,9 +144,9 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
 
-    for (std::size_t i = 0; i < population_size_; ++i)
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
         initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
-- 
2.43.0


From a8524fad785f1c69e91d5e3cde5784945359fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 10/21] fix: GeneticAlgorithm does not reuse fitness values of
 another objective function

The fitness cache survived between calls of Optimize.
---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 2 ++
 src/optimization/objective_function_counter.cpp          | 8 +++++++-
 src/optimization/objective_function_counter.h            | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 992d733..c114d23 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -135,6 +135,8 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
         ReadPopulationFromFile();
     }
 
+    //Cached values belong to the objective function of the previous run
+    fitness_counter_->ClearCache();
     RunIterationsAndSetBestIndivid(function_to_optimize);
 
     parameters_to_optimize->SetFromChromosome(
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..88d2370 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -17,7 +17,8 @@ ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_me
 {
     cache_hits_ = 0;
     objective_function_counts_ = 0;
-    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
+    ClearCache();
 
 #ifdef BUILD_WITH_MPI
     CountObjectiveFunctionTask task;
@@ -70,6 +71,11 @@ void ObjectiveFunctionCounter::ResetCacheHits()
     cache_hits_ = 0;
 }
 
+void ObjectiveFunctionCounter::ClearCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+}
+
 int ObjectiveFunctionCounter::get_cache_hits() const
 {
     return cache_hits_;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..ff087d6 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -38,6 +38,8 @@ public:
         const IObjectiveFunction& objective_function);
 
     void ResetCacheHits();
+
+    void ClearCache();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
 
@@ -64,6 +66,7 @@ protected:
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
+    double cache_data_limit_in_megabytes_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
-- 
2.43.0


From 6936415043dae7bd5ce5c8a11f7b6ff0e2e91e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 11/21] fix: OptimizationParametersProcessor refuses an empty
 list of parameters

It read the first element of an empty vector.
---
 src/optimization/optimization_parameters_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..3ac7e35 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,11 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.empty())
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
+
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 5eecea241b5a7c5563427dd054011715f4559ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 12/21] fix: a failing task does not make ThreadWorkerPool wait
 forever

A task that threw was never reported as done. Now DoTasks ends with an exception,
as it does with SequentialWorkerPool.
---
 src/parallel/thread/thread_worker_pool.cpp |  9 +++++++++
 src/parallel/thread/worker.h               | 19 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..206da71 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -28,6 +28,15 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<results.size(); i++)
+    {
+        if(!results[i])
+        {
+            throw std::runtime_error("Failed to perform a task");
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index be96347..db18a78 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -60,7 +60,20 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             //boost::this_thread::disable_interruption di;
             TTask to_do;
             tasks_to_do->WaitAndPop(to_do);
-            to_do.DoTask();
+            try
+            {
+                to_do.DoTask();
+            }
+            catch(const boost::thread_interrupted&)
+            {
+                throw;
+            }
+            catch(...)
+            {
+                //The one who waits for the task must not wait forever
+                done_tasks->Push(to_do);
+                throw;
+            }
             done_tasks->Push(to_do);
         }
         catch(boost::thread_interrupted&)
@@ -72,6 +85,10 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
         {
             std::cout << "Incorrect task: " << ex.what() <<std::endl;
         }
+        catch(...)
+        {
+            std::cout << "Incorrect task: unknown exception" << std::endl;
+        }
 
         try
         {
-- 
2.43.0


From 7ed4f9605258fbf32c51ceb9480647037f02c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/21] fix: ThreadSafeQueue::IsEmpty compiles

A const method locked a mutex that was not mutable.
---
 src/parallel/thread/thread_safe_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_safe_queue.h b/src/parallel/thread/thread_safe_queue.h
index abe5930..1597d56 100644
--- a/src/parallel/thread/thread_safe_queue.h
+++ b/src/parallel/thread/thread_safe_queue.h
@@ -35,7 +35,7 @@ public:
 
 private:
     std::queue<TElement> queue_;
-    boost::mutex mutex_;
+    mutable boost::mutex mutex_;
     boost::condition_variable condition_variable_;
 
     DISALLOW_COPY_AND_ASSIGN(ThreadSafeQueue);
-- 
2.43.0


From fd8af8bc653f722290d2809262c683ecc68edc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 14/21] fix: individual with a refused fitness is not half read
 from text

Its chromosome was replaced, but not its parameters.
---
 src/optimization/genetic_algorithm/individual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..e414b76 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -297,8 +297,8 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
-- 
2.43.0


From 35f3d9a1eba32de3ed8ec1579303e6c79db7b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 15/21] fix: crossover of empty chromosomes does not divide by
 zero

---
 src/optimization/genetic_algorithm/individual.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index e414b76..dc41171 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -238,6 +238,11 @@ void Individual::BoolCrossover(ChromosomeType *first, ChromosomeType *second)
         throw std::invalid_argument("For crossover chromosomes must have same size");
     }
 
+    if(first->empty())
+    {
+        return;
+    }
+
     int crossover_point = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);
 
     for(size_t i = crossover_point; i < first->size(); i++)
-- 
2.43.0


From 82c6e8902880e04334d8173bde80f24562f3cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 16/21] fix: spline based wavelet can be evaluated on the whole
 [-4, 4]

The last point could be below 4 because of rounding, then Value(4) threw out_of_range.
---
 src/dsp/spline_based_wavelet_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..1b05911 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -30,7 +30,7 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    points[size - 1] = 4;
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From 5593fd47e0d99a7f44d82755f19c235e2ec4da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 17/21] fix: GetParameter of a composite refuses the largest
 index

index+1 wraps around to zero there, and memory outside the vector was read.
---
 src/optimization/params/composite_discrete_parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..f45e888 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -118,7 +118,7 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
 {
     initialization_checker_.InitializationCheck();
 
-    if(index+1 > parameters_set_.size())
+    if(index >= parameters_set_.size())
     {
         throw std::out_of_range("index in getParameter method is out of range");
     }
-- 
2.43.0


From f5235d1d87acd35bc600737edc8ce24c301af850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:29 +0000
Subject: [PATCH 18/21] fix: a refused second initialisation of composite
 parameters keeps its parts

Initialize replaced the parts before it noticed that the composite was
initialised already, so after the logic_error the parts no longer matched
the declared chromosome size.
---
 .../params/composite_discrete_parameters.cpp  | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index f45e888..4d9797c 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,30 +81,34 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
     initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
+
+    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(number_of_parameters);
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
     initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
+
+    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
-- 
2.43.0


From 4687e5a1579368b2aa0dd57252fb5de87dfb0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 19/21] fix: the probability of a linear mutator stays inside
 [0, 1] when rounded

With values 0.1 and 0 the last of four generations had a probability of
about -1e-17, which the random source refuses with invalid_argument.
---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..fa0b545 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -25,7 +25,7 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    return (end_mutation_value_ - start_mutation_value_) * (current / max) + start_mutation_value_;
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From a19f5a893a9ad85f4b08c485ef57ee7da7ae5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 20/21] fix: the fitness cache tells chromosomes with equal
 hash values apart

---
 src/optimization/objective_function_counter.cpp | 9 ++++-----
 src/optimization/objective_function_counter.h   | 3 +--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 88d2370..b93f984 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -98,11 +98,11 @@ void ObjectiveFunctionCounter::ProcessPopulation(
     {
         if (cache_)
         {
-            size_t chromosome_hash_value = chromosome_hash_function_( ((*population)[i])->GetChromosome() );
+            ChromosomeType chromosome = ((*population)[i])->GetChromosome();
 
-            if (cache_->IsCached(chromosome_hash_value))
+            if (cache_->IsCached(chromosome))
             {
-                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome_hash_value));
+                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome));
                 cache_hits_ ++;
                 continue;
             }
@@ -168,8 +168,7 @@ void ObjectiveFunctionCounter::AddNewCacheValues(
     {
         Individual::shared_ptr current_individ = (*population)[ new_cache_indexes[i] ];
         double fitness_value = current_individ->get_fitness();
-        size_t chromosome_hash_value = chromosome_hash_function_( current_individ->GetChromosome() );
-        value_records.push_back(FitnessCache::CacheRecord(chromosome_hash_value, fitness_value));
+        value_records.push_back(FitnessCache::CacheRecord(current_individ->GetChromosome(), fitness_value));
     }
 
     cache_->AddValues(value_records);
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index ff087d6..8c89c7c 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -25,7 +25,7 @@ class ObjectiveFunctionCounter
 {
 public:
     typedef boost::shared_ptr<ObjectiveFunctionCounter> shared_ptr;
-    typedef k52::common::Cache<std::size_t, double> FitnessCache;
+    typedef k52::common::Cache<ChromosomeType, double> FitnessCache;
 
     explicit ObjectiveFunctionCounter(double cache_data_limit_in_megabytes);
 
@@ -67,7 +67,6 @@ private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
     double cache_data_limit_in_megabytes_;
-    boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
 
-- 
2.43.0


From b1ee1fba39085b62ec6aa0a5497846293201b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:41 +0000
Subject: [PATCH 21/21] fix: HookeJeevesMethod keeps a better point that is
 nearly the previous one

---
 src/optimization/hooke_jeeves_method.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 5d8b562..9d25494 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -87,6 +87,7 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             {
                 steps_array[i] /= step_divider_;
             }
+            arguments = arguments_after_search;
             continue;
         }
 
-- 
2.43.0

