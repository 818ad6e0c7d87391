#!/usr/bin/env python3
# tools/claimed.json: which properties are claimed, at which level (edited here)
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification: contracts on the C++ functions, weakest-precondition style symbolic execution of the extracted source, obligations discharged by z3'
R = 'real numbers for doubles; library models listed in the evidence are trusted'
claimed = {}
def claim(i, note, level='proof', t=T): claimed[i] = dict(technique=t, level=level, note=note)
claim('C01', 'Every Cache member function verified against its contract for all histories; ' + R)
claim('C02', 'Every function verified with 32 and 64 bit vectors; the two bit loops by cases over the slice sizes 0 to 31, which are shown to be all; library models listed in the evidence are trusted')
claim('C03', 'Construction, setting, encoding and decoding of real parameters verified for all arguments; '+ R)
claim('C04', 'Arrays and composites verified for every number and size of parts; parts of a composite through the contract of their interface; ' + R)
claim('C14', 'Every queue operation verified as one atomic change under the lock, for every interleaving at lock granularity; element type int stands for all; library models listed in the evidence are trusted')
claim('C15', 'Forward and inverse transform verified for every length; ' + R)
claim('C16', 'Both convolutions verified for every length; ' + R)
claim('C17', 'Buffer and plan life cycle, lock discipline and data transport verified against a stated model of FFTW; ' + R)
claim('C18', 'Samples, cache consistency and every row verified for every signal, wavelet and scale; ' + R)
claim('C20', 'Coefficients, interval search and value verified for every number of points; ' + R)
claim('C21', 'Scales, samples, correlation and window placement verified for every size and step; ' + R)
claim('C22', 'Every random function verified for every output of the random source, bits as 32-bit vectors; ' + R)
claim('C26', 'Every wavelet function verified for all arguments; ' + R)
claim('C19', 'Constructors and both scale computations verified for all parameters; ' + R)
claim('C24', 'All functions verified for all contents; parameter objects through the contract of their interface; ' + R)
claim('C25', 'All functions verified for vectors of every length; ' + R)
claim('C05', 'Every function of Individual verified for every chromosome and kind of parameters, through the contract of their interface; ' + R)
claim('C06', 'Crossover verified for chromosomes of every length and every draw; ' + R)
claim('C07', 'Mutation, both policies and their constructors verified for every chromosome, probability and draw; ' + R)
claim('C10', 'Every function verified for all parameters, objectives and strategies, through the contracts of their interfaces; ' + R)
claim('C12', 'Both processors, the optimisation task, random search and annealing verified for every candidate list, objective, direction and draw; the worker pool through its contract (C13); ' + R)
claim("C09", "Every function of the objective counter verified for every population, objective, cache content and eviction; the worker pool through its contract (C13), individuals through theirs (C05); " + R)
claim("C13", "Every pool, worker, task, statistics and factory function verified for every task list, worker count and usage history; the queue through its contract (C14), threads composed by a counting argument over the functions' contracts (stated assumption)")
json.dump(claimed, open(os.path.join(HERE, 'claimed.json'), 'w'), indent=1)
