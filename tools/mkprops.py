#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

O='src/optimization/'; IO='include/k52/optimization/'
prop('C01','The memory-limited cache only ever returns what was stored',
 'A key counts as cached exactly when a value was stored for it and not evicted since, and reading a cached key returns the value stored for it most recently; reading any other key throws a runtime_error, and asking whether a key is cached never changes any stored value or makes a key cached. '
 'Storing one value or a batch leaves every stored key cached with its new value (the last one, when a batch repeats a key), and touches other keys only through eviction. '
 'Eviction happens only when a value is stored while the size limit is exceeded, never removes an entry that has been read since it was stored, never changes a surviving value, and a store that still finds the limit exceeded throws; a non-positive limit yields no cache at all.',
 ['histories','inputs'],'every sequence of is-cached / get / add / add-batch calls, every key, value and size limit (fewer than 2^42 entries, fewer than 2^31-2 reads of one entry)',
 'No unit test exercises the cache; correctness depends on the history of reads, stores and evictions.',
 ['include/k52/common/cache.h','include/k52/common/stored_value.h'],
 [('IsCached / GetCachedValue / AddValue / AddValues','include/k52/common/cache.h'),('ClearUnusedCacheValues eviction by usage count','include/k52/common/cache.h'),('StoredValue presence flag and usage counter','include/k52/common/stored_value.h')],
 ['Cache::GetCachedValue','Cache::IsCached'],[dict(name='cache_map_',meaning='key -> stored value with presence flag and read counter',where='include/k52/common/cache.h')])
prop('C02','Integer parameters and their chromosomes encode each other exactly',
 'For every range [min, max] (with max - min up to 2^30) and every value in it, writing an integer parameter to a chromosome of its declared size and reading that chromosome back, into it or into another parameter of the same range, yields exactly that value; distinct values give distinct chromosomes and bit i of the chromosome has weight 2^i. '
 'The declared chromosome size is the smallest number of bits that can represent every value of the range. '
 'A chromosome of any other size is rejected with invalid_argument and changes nothing, and the constraint check holds exactly when min <= value <= max; cloning preserves value, range and size.',
 ['inputs'],'every min, max, value and every bit pattern of the declared size (the largest pattern, at most min + 2*(max - min), assumed to be an int)',
 'There is no test of IntParameter; round trips have to hold for 2^31 ranges times values.',
 ['src/optimization/params/int_parameter.cpp','src/optimization/params/const_chromosome_size_paremeters.cpp'],
 [('SetChromosome / SetFromChromosome','src/optimization/params/int_parameter.cpp'),('CountChromosomeSize','src/optimization/params/int_parameter.cpp'),('CheckForConstChromosomeSize','src/optimization/params/const_chromosome_size_paremeters.cpp')],
 ['IntParameter::get_value','IntParameter::GetChromosomeSize'])
prop('C03','Quantised real parameters stay in bounds, in step and round-trip',
 'A real parameter created for [min, max] with a desired precision has an actual step no larger than the desired precision, divides the interval into equal steps from min to max, starts within half a step of the requested value, and setting any value in bounds afterwards stores a grid value within half a step of it. '
 'Every chromosome of its declared size decodes to a grid value inside [min, max] (the values past the last step all to max itself), and encoding then decoding leaves the value unchanged, as does setting a parameter to the value it already has. '
 'Construction rejects max <= min, an initial value outside the bounds, and a precision that gives no positive step count with invalid_argument; cloning preserves everything.',
 ['inputs'],'every interval, precision, value and chromosome (step counts up to 2^30)',
 'There is no test of DoubleParameter; quantisation errors only show for particular interval/precision/value combinations.',
 ['src/optimization/params/double_parameter.cpp','src/optimization/params/int_parameter.cpp'],
 [('SetValue / GetValue quantisation','src/optimization/params/double_parameter.cpp'),('CountBestMaxInt step count','src/optimization/params/double_parameter.cpp'),('constructor validation','src/optimization/params/double_parameter.cpp')],
 ['DoubleParameter::GetValue','DoubleParameter::get_actual_precision'])
prop('C04','Composite parameters split a chromosome into disjoint ordered slices',
 'The chromosome of an array of real parameters or of a composite of parameters is the concatenation, in order, of the chromosomes of its parts: its size is the sum of theirs, part i reads and writes exactly its own slice, and nothing outside is touched. '
 'Encoding and decoding round-trip for every part, the constraint check holds exactly when it holds for every part, a chromosome or value vector of the wrong size is rejected with invalid_argument without changing anything, and an array refuses value vectors containing an out-of-bounds value, keeping its previous values. '
 'Initialising or cloning a composite copies its parts deeply, part access by index returns that part or throws out_of_range, and using a composite before initialisation or initialising it twice throws logic_error.',
 ['inputs','histories'],'every list of parts, sizes and chromosome contents; every sequence of operations',
 'No test covers parameter composition; slices depend on every part size.',
 ['src/optimization/params/double_parameters_array.cpp','src/optimization/params/composite_discrete_parameters.cpp','src/optimization/initialization_checker.cpp'],
 [('running iterator current_from/current_to','src/optimization/params/composite_discrete_parameters.cpp'),('SetValues validation','src/optimization/params/double_parameters_array.cpp'),('InitializationChecker','src/optimization/initialization_checker.cpp')],
 ['SetChromosome','SetFromChromosome','get_values'])
prop('C05','An individual keeps parameters, chromosome and fitness consistent',
 'After initialisation, random generation, mutation, crossover, copying and reading from text, the parameters of every individual involved equal the decoding of its chromosome. '
 'An individual never reports a fitness for a chromosome it was not measured for: initialisation, random generation, mutation and crossover drop the fitness of every individual involved, reading a missing fitness throws logic_error, negative fitness is refused, and copies carry the fitness along with an independent deep copy of the parameters. '
 'Random generation and mutation only end with parameters that satisfy their constraints (returning the number of rejected attempts), crossover reports success exactly when both results satisfy theirs, and reading from text rejects a chromosome of another size or with characters other than 0 and 1, leaving the individual unchanged.',
 ['histories','inputs'],'every sequence of operations on individuals, every parameter implementation and every random outcome',
 'No test covers Individual; consistency must hold along arbitrary operation histories.',
 ['src/optimization/genetic_algorithm/individual.cpp'],
 [('SetParametersAccordingToChromosome after each change','src/optimization/genetic_algorithm/individual.cpp'),('has_fitness_ invalidation','src/optimization/genetic_algorithm/individual.cpp'),('retry loops with CheckConstraints','src/optimization/genetic_algorithm/individual.cpp')],
 ['Individual::GetChromosome','Individual::GetParametersAccordingToChromosome','Individual::get_fitness'])
prop('C06','Crossover is a single-point exchange between two chromosomes',
 'Crossing two individuals keeps every gene before one cut point and swaps every gene from the cut point to the end, so at each position the pair of genes is preserved as a pair and both lengths are unchanged. '
 'The cut point is drawn uniformly from all positions of the chromosome, so it is always a valid position and the last gene is always exchanged. '
 'Individuals with chromosomes of different sizes are refused with invalid_argument and keep their chromosomes.',
 ['inputs'],'every pair of chromosomes and every cut point',
 'No test calls crossover; the property ranges over all chromosome pairs and random cut points.',
 ['src/optimization/genetic_algorithm/individual.cpp','src/common/random.cpp'],
 [('BoolCrossover','src/optimization/genetic_algorithm/individual.cpp')],['Individual::Crossover'])
prop('C07','Mutators flip exactly the genes their policy selects',
 'Mutating a chromosome asks the policy once per gene in order, inverts exactly the genes it selected, leaves all others and the length unchanged, and tells the policy after each gene whether it was inverted. '
 'The flip-bit policy draws a gap uniformly from 0 to floor(1/p) - 1, skips exactly that many genes, flips the next one and draws again, also across chromosomes; it refuses probabilities for which that maximum gap is not positive (probabilities down to 1e-9). '
 'The linear policy flips each gene with a probability that goes linearly from the start value in the first generation to the end value in the last, staying between the two, and refuses start or end values outside [0, 1] (at least two generations).',
 ['inputs','histories'],'every chromosome, probability, generation count and random sequence',
 'Only one LinearMutator statistic is tested; FlipBitMutator and per-gene behaviour are not.',
 ['src/optimization/genetic_algorithm/gen_mutator_base.cpp','src/optimization/genetic_algorithm/flip_bit_mutator.cpp','src/optimization/genetic_algorithm/linear_mutator.cpp'],
 [('MutateChromosome','src/optimization/genetic_algorithm/gen_mutator_base.cpp'),('gap counters','src/optimization/genetic_algorithm/flip_bit_mutator.cpp'),('GetCurrentGenMutationProbability','src/optimization/genetic_algorithm/linear_mutator.cpp')],
 ['IMutator::MutateChromosome'])
prop('C08','The genetic algorithm returns the best individual of all generations',
 'When an optimisation ends, the parameters handed in decode the chromosome with the highest fitness among all individuals evaluated in any generation of that run, and the best fitness reported never decreases from one generation to the next; the run stops after the configured number of generations or as soon as the best fitness reaches the stop criterion. '
 'Each next generation has the configured population size, starts with copies of the configured number of best pairs of the current one (before mutation), and fills the rest with successful crossover children of parents chosen by roulette, where an individual is chosen exactly when the drawn share of the total fitness falls into its interval. '
 'Odd, zero or negative population sizes, non-positive generation counts, a missing mutator, minimisation, and initial parameters whose number, type or encoding does not match are refused.',
 ['inputs','histories'],'every objective, population, random sequence and configuration',
 'Only an example program runs the algorithm, and only its exit code is checked.',
 ['src/optimization/genetic_algorithm/genetic_algorithm.cpp'],
 [('UpdateBestIndivid','src/optimization/genetic_algorithm/genetic_algorithm.cpp'),('GenerateNextPopulation','src/optimization/genetic_algorithm/genetic_algorithm.cpp'),('SelectRandomIndividualIndexForCrossover','src/optimization/genetic_algorithm/genetic_algorithm.cpp'),('ValidateInitialParameters','src/optimization/genetic_algorithm/genetic_algorithm.cpp')],
 ['GeneticAlgorithm::Optimize','NextGenerationReadyCallback statistics'])
prop('C09','Every individual gets the objective value of its own parameters',
 'After fitness evaluation each individual of the population has the value the objective function gives for that individual\'s own parameters, whatever the order, number of individuals, worker pool, or caching. '
 'With a cache the results are the same as without, an individual whose chromosome was evaluated in an earlier evaluation of the same run by the same objective and is still in the cache is not evaluated again and counts as a cache hit, and results are never taken from another chromosome or another objective function. '
 'Counting values for a list of parameters returns exactly one value per parameter object, in the order given, and the evaluation counter grows by the number of evaluations.',
 ['inputs','histories','schedules'],'every population of fewer than 2^29 individuals, objective function of the parameters, cache history and worker pool satisfying its interface; negative values are refused',
 'The objective counter has no unit test; index mapping errors need mixed hit/miss populations.',
 ['src/optimization/objective_function_counter.cpp','src/optimization/count_objective_function_task.cpp','src/optimization/objective_function_task_result.cpp'],
 [('ProcessPopulation index list','src/optimization/objective_function_counter.cpp'),('CountObjectiveFunctionValues','src/optimization/objective_function_counter.cpp'),('CountObjectiveFunctionTask::Perform','src/optimization/count_objective_function_task.cpp')],
 ['Individual::get_fitness','ObjectiveFunctionCounter::get_cache_hits'])
prop('C10','Continuous optimizers evaluate only feasible points with the right sign',
 'A continuous optimizer evaluates the objective exactly at the parameter values it was asked for and never at values that violate the constraints (it throws logic_error instead); when maximising it minimises the negated objective and vice versa, consistently for both directions. '
 'After optimisation the parameters passed in hold exactly the point the search strategy returned, the search starts from the values they held before, and parameters or objectives of the wrong kind are refused. '
 'The adapters for objective functions pass the parameters of the matching kind on unchanged and throw logic_error for parameters of another kind.',
 ['inputs'],'every objective, parameter object, direction and search strategy',
 'No unit test covers the adapter layer; it is only run through two example programs.',
 ['src/optimization/continuous_optimizer.cpp','src/optimization/continuous_objective_function.cpp','src/optimization/discrete_objective_function.cpp','src/optimization/discrete_optimizer.cpp','src/optimization/params/continuous_parameters_array.cpp'],
 [('CountObjectiveFunctionValue','src/optimization/continuous_optimizer.cpp'),('Optimize','src/optimization/continuous_optimizer.cpp')],
 ['ContinuousOptimizer::Optimize'])
prop('C11','Direct searches never return a point worse than where they started',
 'The Hooke-Jeeves search and the bounded Nelder-Mead search return a point whose objective value is at least as good as the starting point\'s, in the requested direction, and as good as every point they ever accepted (the best vertex of the final simplex for Nelder-Mead), no matter how often the optimizer was used before. '
 'Exploring one coordinate at a time moves each coordinate by plus or minus its step only when that strictly improves the value, and keeps it otherwise. '
 'Nelder-Mead starts from a regular simplex with the given edge length containing the start point, its reflection, expansion and contraction are the textbook affine combinations with the centroid of the other vertices, reflected and expanded points are projected into the configured bounds, and the value kept for each vertex is always that vertex\'s objective value.',
 ['inputs','histories'],'every objective function, starting point, dimension and configuration',
 'The optimizers are only run by an example whose result is not checked.',
 ['src/optimization/hooke_jeeves_method.cpp','src/optimization/bounded_nelder_mead.cpp'],
 [('CoordinatewiseSearch / acceptance test','src/optimization/hooke_jeeves_method.cpp'),('FindOptimalParameters, GetIndexes','src/optimization/bounded_nelder_mead.cpp'),('Reflexion / Expansion / Contraction / Reduction','src/optimization/bounded_nelder_mead.cpp')],
 ['FindOptimalParameters'])
prop('C12','Multi-start and annealing keep the best candidate inside the box',
 'The parameter processors return a candidate whose objective value is the best of all candidates in the requested direction (for the optimising processor: of all candidates after their own optimisation, each optimised on its own copies so that the inputs are not changed), and random search generates the requested number of candidates, each coordinate inside the configured bounds, and returns the processed best. '
 'Simulated annealing changes exactly one coordinate per step to a value inside its bounds, accepts improvements always and other moves with probability exp((current - new) / temperature), and uses temperatures that fall from the start to zero and are never negative. '
 'An empty candidate list is refused with invalid_argument, and a negative temperature is refused.',
 ['inputs'],'every candidate list, objective, direction, bounds and random sequence',
 'No unit test covers these classes.',
 ['src/optimization/optimization_parameters_processor.cpp','src/optimization/simple_parameters_processor.cpp','src/optimization/random_search.cpp','src/optimization/simulated_annealing.cpp','src/optimization/optimization_task.cpp','src/optimization/optimization_task_result.cpp'],
 [('best-candidate loop','src/optimization/simple_parameters_processor.cpp'),('best-candidate loop','src/optimization/optimization_parameters_processor.cpp'),('GetRandomNeighbour / CountTemperature / CountAcceptanceProbability','src/optimization/simulated_annealing.cpp')],
 ['ProcessParameters','FindOptimalParameters'])
prop('C13','Worker pools run every task exactly once and keep results in order',
 'A pool returns exactly one result per submitted task, result i being the one task i produced, and performs every task exactly once; it returns only after all of them are done. '
 'This holds for any number of tasks including none, for repeated use of the same pool, for the sequential and the threaded pool alike and for any number of worker threads, and a failing task never makes a pool hang or hand out another task\'s result. '
 'The sequential pool counts every performed task in its statistics, the per-worker aggregator counts events for each worker id separately, a thread pool with fewer than two workers or a non-positive worker count is refused, and the factory returns a pool that reports itself usable.',
 ['inputs','schedules','histories'],'every task list (of fewer than 2^30 tasks that end and produce a result or fail), worker count, interleaving and usage history of a pool used by one caller at a time, not interrupted',
 'No test uses the worker pools; order and completeness depend on thread interleavings.',
 ['src/parallel/sequential_worker_pool.cpp','src/parallel/thread/thread_worker_pool.cpp','src/parallel/thread/thread_worker_pool_templated.h','src/parallel/thread/worker.h','src/parallel/thread/thread_worker_pool_task.cpp','src/parallel/worker_pool_factory.cpp','src/parallel/statistics_aggregator.cpp','src/parallel/worker_statistics.cpp'],
 [('result slot pointer per task','src/parallel/thread/thread_worker_pool.cpp'),('done queue counts completions','src/parallel/thread/thread_worker_pool_templated.h'),('ProcessTasksQueue','src/parallel/thread/worker.h')],
 ['IWorkerPool::DoTasks','GetStatistics'])
prop('C14','The shared queue is a lock-protected first-in first-out queue',
 'Elements come out of the queue in the order they were put in, each exactly once and unchanged: pushing appends one element, a successful pop removes and delivers the oldest, a blocking pop waits while the queue is empty and never delivers from an empty queue, and a non-blocking pop reports failure exactly when the queue is empty, leaving its output untouched. '
 'Every access to the queued elements happens while holding the queue\'s own lock, which is free again when any operation ends, and after every push a waiting consumer is notified. '
 'The emptiness query can be used on a constant queue and agrees with the contents.',
 ['schedules','histories'],'every interleaving of pushes and pops from any number of threads',
 'No test uses the queue, and races cannot be covered by sampling schedules.',
 ['src/parallel/thread/thread_safe_queue.h'],
 [('scoped_lock on mutex_','src/parallel/thread/thread_safe_queue.h'),('condition variable wait loop','src/parallel/thread/thread_safe_queue.h')],
 ['ThreadSafeQueue::WaitAndPop','ThreadSafeQueue::TryPop'])
prop('C15','Forward and inverse Fourier transforms match the definition',
 'The direct transform of a sequence x of any length N has length N and element k equal to the sum over n of x[n]*exp(-2*pi*i*k*n/N), up to floating-point rounding. '
 'The inverse transform over any correct forward transform has the input\'s length and element n equal to (1/N) times the sum over k of X[k]*exp(+2*pi*i*k*n/N), so inverse(forward(x)) = x. '
 'Inputs are not modified and the empty sequence maps to the empty sequence.',
 ['inputs'],'every length and every complex sequence, every forward transform satisfying the definition',
 'Tests sample a few lengths up to 10 or so; the definition ranges over all N and all values.',
 ['src/dsp/transform/fourier_transform.cpp','src/dsp/transform/inverse_fourier_transform.cpp','src/common/helpers.cpp','src/common/constants.cpp'],
 [('Transform double loop','src/dsp/transform/fourier_transform.cpp'),('conjugate-transform-conjugate','src/dsp/transform/inverse_fourier_transform.cpp')],
 ['IFourierTransform::Transform'])
prop('C16','Both circular convolutions compute the circular convolution',
 'For two sequences of the same length N the direct convolution returns a sequence of length N whose element n is the sum over m of a[m]*b[(n-m) mod N]. '
 'The Fourier-based convolution, over any correct forward transform, returns the inverse transform of the element-wise product of the transforms, which is the same sequence up to rounding. '
 'Sequences of different lengths are refused with runtime_error by both, and empty sequences give an empty result.',
 ['inputs'],'every length and every pair of complex sequences',
 'Tests check a few fixed sequences; index wrap-around errors can hide in particular lengths or positions.',
 ['src/dsp/transform/circular_convolution.cpp','src/dsp/transform/fourier_based_circular_convolution.cpp'],
 [('index wrap m <= n','src/dsp/transform/circular_convolution.cpp'),('multiplication of spectra','src/dsp/transform/fourier_based_circular_convolution.cpp')],
 ['ICircularConvolution::EvaluateConvolution'])
prop('C17','The fast Fourier transform feeds and reads its planner faithfully',
 'A fast transform built for size N transforms exactly sequences of length N (others, and size zero at construction, are refused with invalid_argument), hands every real and imaginary part unchanged to the planned forward transform of that size, and returns every output part unchanged, so its result is the discrete Fourier transform of its input and does not depend on earlier calls. '
 'Several transforms of different sizes can coexist, and creating and destroying plans is serialised by one lock shared by all instances, released again even when construction fails. '
 'Buffers and plan are released exactly once on destruction.',
 ['inputs','histories','schedules'],'every size, sequence, call history and number of instances (FFTW itself assumed correct)',
 'Tests compare a few small sizes; copying mistakes at particular positions or after reuse are not covered.',
 ['src/dsp/transform/fast_fourier_transform.cpp'],
 [('copy loops','src/dsp/transform/fast_fourier_transform.cpp'),('fftw_mutex_','src/dsp/transform/fast_fourier_transform.cpp')],
 ['FastFourierTransform::Transform'])
prop('C18','The fast wavelet transform is a scaled-wavelet convolution per scale',
 'The transform returns one row per scale, in the order of the scales, each of the input\'s length N: row r is the circular convolution of the input with the sampled wavelet of that scale, rotated left by N/2. '
 'Sample n of the wavelet at scale s is the complex conjugate of psi(-(n - N/2)/s)/sqrt(s), where n - N/2 is computed in real arithmetic; a scale that is not positive is refused with invalid_argument. '
 'Results with a sample cache are the same as without, for every order of wavelets, scales and lengths asked for.',
 ['inputs','histories'],'every wavelet, list of scales, sequence and cache history',
 'There is no unit test for the fast wavelet transform.',
 ['src/dsp/transform/wavelet/fast_wavelet_transform.cpp','include/k52/common/cache.h'],
 [('GetWaveletSamplesForConvolution cache','src/dsp/transform/wavelet/fast_wavelet_transform.cpp'),('std::rotate','src/dsp/transform/wavelet/fast_wavelet_transform.cpp')],
 ['FastWaveletTransform::Transform','FastWaveletTransform::TransformOneScale'])
prop('C19','Scale sequences have exactly the promised length, ends and spacing',
 'A linear scale with n points from min to max has exactly n strictly increasing values, point i equal to min + i*(max-min)/(n-1), so the first is min and the last is max (up to rounding). '
 'A logarithmic scale for exponents a to b has exactly b-a+1 values, value i equal to 2^(a+i), each positive and twice the one before. '
 'Non-positive or non-increasing bounds, fewer than two points and non-increasing exponents are refused with invalid_argument.',
 ['inputs'],'every bound, count and exponent pair (exponents of finite doubles, -1074 to 1023)',
 'Tests check a few fixed parameter sets.',
 ['src/dsp/transform/wavelet/linear_scale.cpp','src/dsp/transform/wavelet/logarithmic_scale.cpp'],
 [('CalculateScales','src/dsp/transform/wavelet/linear_scale.cpp'),('CalculateScales','src/dsp/transform/wavelet/logarithmic_scale.cpp')],
 ['IScale::GetScales'])
prop('C20','The Akima spline interpolates its points smoothly on its whole range',
 'A spline trained on n >= 5 points with increasing abscissae is on each interval the cubic that takes the training values at both ends and has the Akima slope (the weighted mean of the neighbouring secant slopes, the plain mean when the weights vanish, with the quadratic extrapolation at the ends) at both ends, so it passes through every training point and has a continuous derivative. '
 'It can be evaluated everywhere from the first to the last abscissa inclusive, always using the interval that contains the argument, and throws out_of_range anywhere else. '
 'Fewer than five points or inconsistent sizes are refused with invalid_argument, and training again forgets the previous points.',
 ['inputs','histories'],'every number of points, every abscissae and values, every argument',
 'Tests use a handful of fixed data sets; coefficient or interval errors may only appear in special slopes or at the ends.',
 ['src/dsp/akima_spline.cpp'],
 [('ReestimatePolynomials','src/dsp/akima_spline.cpp'),('CalculateM / CalculateSlopes','src/dsp/akima_spline.cpp'),('ResolveInterval','src/dsp/akima_spline.cpp')],
 ['AkimaSpline::Value'])
prop('C21','The continuous wavelet transform correlates every window with every wavelet',
 'Building a wavelet samples the base function for every scale index i and position j at x = (j - L/2)*scale_i*4/(L/2 rounded down), with L the maximal length (scales exp(i/count*ln(L/min)) for the logarithmic type); transforming a window gives for every scale the modulus of the sums of products of the window with the real and with the imaginary samples, independently of each other. '
 'The continuous transform returns one row for each step-th input position, row k using the window of the zero-padded signal that is centred on that position (half of L, rounded down, before it), never reading outside the data. '
 'Transforming before the wavelet was built, or building it without a base function, is refused.',
 ['inputs'],'every signal, step, wavelet function and size setting',
 'There is no test of the continuous wavelet transform.',
 ['src/dsp/wavelet.cpp','include/k52/dsp/wavelet.h','src/dsp/cwt.cpp','include/k52/dsp/cwt.h'],
 [('createWavelet / createScale','src/dsp/wavelet.cpp'),('transform','include/k52/dsp/wavelet.h'),('window loop','src/dsp/cwt.cpp')],
 ['Wavelet::transform','ContiniousWaveletTransformation'])
prop('C22','Random quantities stay in their ranges and use sound random bits',
 'Every generated base quantity lies in [0, 1], every continuous quantity in the requested closed interval (up to rounding), every discrete quantity in the requested closed integer interval (both ends reachable), and a random vector has the requested size with every element in the interval. '
 'An event of probability 0 (short of a draw of exactly 0) never and of probability 1 always happens, the outcome is that of comparing one base quantity with the probability, and probabilities outside [0, 1] are refused with invalid_argument. '
 'Random booleans consume the bits the random source really delivers, each bit once and in order, never using an invalid shift or a bit position outside the source\'s range, and a new draw is made only when all bits are used.',
 ['inputs','histories'],'every interval, probability, random source output and call history',
 'One test samples event outcomes; ranges and bit usage are not tested.',
 ['src/common/random.cpp'],
 [('GetNextBitFromBoolBase','src/common/random.cpp'),('range formulas','src/common/random.cpp'),('ValidateProbability','src/common/random.cpp')],
 ['Random methods'])
prop('C23','Settings: every --name=value argument is stored and merges keep the left side',
 'After parsing a command line, the value of each property named in an argument of the form --name=value is the text after the first "=" of its last such argument; arguments without the -- prefix are ignored, and the text after the first "=" may itself contain "=". '
 'Reading a missing property without a default throws and with a default gives the default, and an existing property is returned whatever the default is. '
 'Merging two setting trees keeps every value of the left tree, adds every entry only the right tree has, and does so at every depth.',
 ['inputs'],'every argument list, property name and pair of trees',
 'Tests use a few fixed argument lists.',
 ['include/k52/common/settings_manager.h'],
 [('ParseCommandLine','include/k52/common/settings_manager.h'),('Merge','include/k52/common/settings_manager.h')],
 ['SettingsManager::get'])
prop('C24','Generation statistics and misuse guards report the truth',
 'The statistics object handed to a generation callback carries exactly the average fitness, best parameters (as an independent copy), best fitness, generation number, cache hits, invalid count, file list and individual statistics it was built from, and copies of it carry the same. '
 'Individual statistics carry the individual\'s fitness and the number of times it was chosen for crossover since the last reset, and the ordering used to rank them is strictly by that count. '
 'A chromosome size can be set once and is checked on every use (using it unset, or setting it twice, throws logic_error; a different size throws invalid_argument), and continuous parameter arrays store exactly the values set, refusing vectors of another size.',
 ['inputs','histories'],'every statistics content and call history',
 'No test covers these classes.',
 ['src/optimization/genetic_algorithm/generation_statistics.cpp','src/optimization/genetic_algorithm/individual.cpp','src/optimization/params/const_chromosome_size_paremeters.cpp','src/optimization/params/continuous_parameters_array.cpp','include/k52/optimization/individual_statistics.h'],
 [('copy assignment','src/optimization/genetic_algorithm/generation_statistics.cpp'),('SetConstChromosomeSize','src/optimization/params/const_chromosome_size_paremeters.cpp')],
 ['GenerationStatistics getters','ConstChromosomeSizeParemeters::GetChromosomeSize'])
prop('C25','Tolerant comparison and conjugation are exact element-wise functions',
 'Two numbers compare equal exactly when their absolute difference is below 1e-10, a number counts as zero exactly when its absolute value is, and two vectors compare equal exactly when they have the same length and every pair of elements does. '
 'The conjugate of a sequence has the same length and each element is the complex conjugate of the corresponding one. '
 'Arguments are not modified.',
 ['inputs'],'every number and every pair of vectors of any length',
 'Tests use a few fixed vectors; a difference only in a particular position or sign can be missed.',
 ['src/common/floating_point.cpp','src/common/helpers.cpp','src/common/constants.cpp'],
 [('AreEqual','src/common/floating_point.cpp'),('Conjugate','src/common/helpers.cpp')],
 ['FloatingPoint::AreEqual','Helpers::Conjugate'])
prop('C26','Wavelet functions take the values of their defining formulas',
 'The Haar wavelet is -1 on [-0.5, 0), 1 on (0, 0.5] and 0 elsewhere, with an imaginary part of -1 on [-0.25, 0.25), 1 on (0.25, 0.75] and 0 elsewhere. The Mexican hat is k*(1 - (t/3)^2)*exp(-(t/3)^2/2) with k = 2/sqrt(9)*pi^(1/4), and the Morlet wavelet is exp(-t^2/2)*(cos 5t + i sin 5t). '
 'The spline based wavelet passes through every training value it is given at equally spaced points from -4 to 4, can be evaluated at every point of [-4, 4] including both ends, and is zero outside. Evaluating a wavelet never changes later results.',
 ['inputs'],'every argument, every list of at least three training values',
 'Tests evaluate the wavelets only through transforms at a few points; the ends of the pieces are not tested.',
 ['src/dsp/haar_wavelet_function.cpp','src/dsp/mhat_wavelet_function.cpp','src/dsp/morlet_wavelet_function.cpp','src/dsp/spline_based_wavelet_function.cpp','src/dsp/akima_wavelet_function.cpp'],
 [('piecewise value','src/dsp/haar_wavelet_function.cpp'),('training abscissae','src/dsp/spline_based_wavelet_function.cpp')],
 ['IWavelet::GetValue'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
