from .base import *
FILES = ['src/optimization/genetic_algorithm/generation_statistics.cpp', 'src/optimization/genetic_algorithm/individual.cpp', 'src/optimization/params/const_chromosome_size_paremeters.cpp', 'src/optimization/params/continuous_parameters_array.cpp']
O = 'k52::optimization::'; G = O + 'GenerationStatistics::'; N = O + 'Individual::'; K = O + 'ConstChromosomeSizeParemeters::'; A = O + 'ContinuousParametersArray::'
STAT = T('rec', 'IndividualStatistics')
VS = VEC(STAT)
def add_clone(reg):
    """parameters as an abstract object: a clone is a new object with the same contents"""
    reg.ghost_fields[('IParameters', '$content')] = I64
    reg.add(Contract(O + 'IParameters::Clone', assumed=True, note='a clone is a new object with the same contents (C02, C03, C04 and C24 verify the parameter classes of the library)', allocates=True,
        ensures=lambda c: [('a new object with the same contents', z3.And(c.result > c.pre.alloc, c.of_(c.result, 'IParameters', '$content') == c.of(c.this, 'IParameters', '$content')))], modifies=lambda c: []))
plain = (('average_fitness_', 0), ('best_fitness_', 2), ('number_of_generation_', 3), ('cache_hits_', 4), ('invalid_chromosomes_', 5), ('files_to_save_', 6))
def content(c, r, post=True): return (c.of_ if post else c.of)(r, 'IParameters', '$content')
def copy_of_best(c, now, best): return ('an independent copy of the best parameters', z3.And(now > c.pre.alloc, content(c, now) == content(c, best, False)))
def copied(c):
    a = lambda f: c.of(c.ref(0), 'GenerationStatistics', f)
    return [('carries the same ' + f, c.f_(f) == a(f)) for f, _ in plain] + [('carries the same individual statistics', c.eq(VS, c.f_('all_individuals_statistics_'), a('all_individuals_statistics_'))), copy_of_best(c, c.f_('best_parameters_'), a('best_parameters_'))]
def has_best(r): return lambda c: [('the statistics hold parameters', c.of(c.ref(0), 'GenerationStatistics', 'best_parameters_') != 0)]
def build(reg, P):
    add_clone(reg)
    reg.add(Contract(G + 'GenerationStatistics', nparams=8, requires=lambda c: [('best parameters given', c.a(1) != 0)], modifies=lambda c: [c.obj], allocates=True,
        ensures=lambda c: [('carries ' + f, c.f_(f) == c.a(i)) for f, i in plain] + [('carries the individual statistics', c.eq(VS, c.f_('all_individuals_statistics_'), c.a(7))), copy_of_best(c, c.f_('best_parameters_'), c.a(1))]))
    reg.add(Contract(G + 'GenerationStatistics', nparams=1, requires=has_best(0), modifies=lambda c: [c.obj], allocates=True, ensures=copied))
    def assigned(c):
        same = c.ref(0) == c.this
        return [(n, z3.If(same, z3.And(*[c.eq(t, c.f_(f), c.f(f)) for f, t in (('best_parameters_', REF(None)), ('average_fitness_', REAL), ('best_fitness_', REAL), ('number_of_generation_', U64), ('cache_hits_', I32), ('invalid_chromosomes_', I32))]), f)) for n, f in copied(c)]
    reg.add(Contract(G + 'operator=', requires=has_best(0), modifies=lambda c: [c.obj], allocates=True, ensures=assigned))
    reg.add(Contract(G + 'SaveCurrentPopulationToFile', requires=lambda c: [('a list is given', c.f('files_to_save_') != 0)], modifies=lambda c: [('H', '$list', '$data', c.f('files_to_save_'))],
        ensures=lambda c: [('the name is added at the end', (lambda a, b: z3.And(c.len(b, VEC(STR)) == c.len(a, VEC(STR)) + 1, c.at(b, c.len(a, VEC(STR)), VEC(STR)) == c.a(0), forall_range(I(0), c.len(a, VEC(STR)), lambda i: c.at(b, i, VEC(STR)) == c.at(a, i, VEC(STR)))))(sel(c.H('$list', '$data'), c.f('files_to_save_')), sel(c.H_('$list', '$data'), c.f('files_to_save_'))))]))
    for n, f in (('best_parameters', 'best_parameters_'), ('best_fitness', 'best_fitness_'), ('average_fitness', 'average_fitness_'), ('number_of_generation', 'number_of_generation_'), ('cache_hits', 'cache_hits_'), ('invalid_chromosomes', 'invalid_chromosomes_'), ('all_individuals_statistics', 'all_individuals_statistics_')):
        reg.add(Contract(G + 'get_' + n, returns=lambda c, f=f: c.f(f)))
    # individual statistics
    nofit = [('logic_error', lambda c: z3.Not(c.f('has_fitness_')))]
    times = lambda c, i: c.of(c.ref(i), 'IndividualStatistics', 'times_chosen_for_crossover')
    reg.add(Contract(O + 'IndividualStatistics::Less', returns=lambda c: times(c, 0) < times(c, 1)))
    reg.add(Contract(O + 'IndividualStatistics::Greater', returns=lambda c: times(c, 0) > times(c, 1)))
    reg.add(Contract(N + 'get_individual_statistics', throws=nofit, ensures=lambda c: [('carries fitness and choices', z3.And(c.ctx.rget(STAT, c.result, 'fitness') == c.f('fitness_'), c.ctx.rget(STAT, c.result, 'times_chosen_for_crossover') == c.f('times_chosen_for_crossover_')))]))
    reg.add(Contract(N + 'get_fitness', throws=nofit, returns=lambda c: c.f('fitness_')))
    reg.add(Contract(N + 'get_times_chosen_for_crossover', returns=lambda c: c.f('times_chosen_for_crossover_')))
    reg.add(Contract(N + 'HasFitness', returns=lambda c: c.f('has_fitness_')))
    reg.add(Contract(N + 'set_fitness', throws=[('logic_error', lambda c: c.a(0) < 0)], modifies=lambda c: [c.floc('fitness_'), c.floc('has_fitness_')], ensures=lambda c: [('fitness stored', z3.And(c.f_('has_fitness_'), c.f_('fitness_') == c.a(0)))]))
    reg.add(Contract(N + 'IncreaseTimesChosenForCrossover', requires=lambda c: [('fewer than 2^31 - 1 choices', z3.And(c.f('times_chosen_for_crossover_') >= 0, c.f('times_chosen_for_crossover_') < 2**31 - 1))], modifies=lambda c: [c.floc('times_chosen_for_crossover_')], ensures=lambda c: [('one more', c.f_('times_chosen_for_crossover_') == c.f('times_chosen_for_crossover_') + 1)]))
    reg.add(Contract(N + 'ResetTimesChosenForCrossover', modifies=lambda c: [c.floc('times_chosen_for_crossover_')], ensures=lambda c: [('none', c.f_('times_chosen_for_crossover_') == 0)]))
    # sizes
    add_sizes(reg)
    # arrays of values
    keeps = lambda i: (lambda c: [('stores exactly the values', c.eq(VR, c.f_('values_'), c.a(i)))])
    reg.add(Contract(A + 'ContinuousParametersArray', sig='vector', modifies=lambda c: [c.obj], ensures=keeps(0)))
    reg.add(Contract(A + 'ContinuousParametersArray', sig='size_t', modifies=lambda c: [c.obj], ensures=lambda c: [('a value per parameter', c.len(c.f_('values_')) == c.a(0))]))
    reg.add(Contract(A + 'SetValues', modifies=lambda c: [c.floc('values_')], throws=[('invalid_argument', lambda c: c.len(c.a(0)) != c.len(c.f('values_')))], ensures=keeps(0)))
    reg.add(Contract(A + 'GetValues', returns=lambda c: c.f('values_')))
    reg.add(Contract(A + 'CheckConstraints', returns=lambda c: z3.BoolVal(True)))
    reg.add(Contract(A + 'Clone', allocates=True, ensures=lambda c: [('a new object with the same values', z3.And(c.result > c.pre.alloc, c.eq(VR, c.of_(c.result, 'ContinuousParametersArray', 'values_'), c.f('values_'))))]))
def add_sizes(reg):
    C = 'ConstChromosomeSizeParemeters'
    unset = ('logic_error', lambda c: z3.Not(c.f('was_chromosome_size_set_')))
    both = lambda c: [c.floc('was_chromosome_size_set_'), c.floc('chromosome_size_')]
    reg.add(Contract(K + C, nparams=0, this_cls=C, modifies=both, ensures=lambda c: [('no size yet', z3.Not(c.f_('was_chromosome_size_set_')))]))
    reg.add(Contract(K + 'GetChromosomeSize', this_cls=C, throws=[unset], returns=lambda c: c.f('chromosome_size_')))
    reg.add(Contract(K + 'SetConstChromosomeSize', this_cls=C, throws=[('logic_error', lambda c: c.f('was_chromosome_size_set_'))], modifies=both, ensures=lambda c: [('size set', z3.And(c.f_('was_chromosome_size_set_'), c.f_('chromosome_size_') == c.a(0)))]))
    reg.add(Contract(K + 'CheckForConstChromosomeSize', this_cls=C, throws=[unset, ('invalid_argument', lambda c: c.a(0) != c.f('chromosome_size_'))]))
    src = lambda c, f: c.of(c.a(0), C, f)
    reg.add(Contract(K + 'CopyState', this_cls=C, requires=lambda c: [('a source is given', c.a(0) != 0)], modifies=both, ensures=lambda c: [('same size', z3.And(c.f_('was_chromosome_size_set_') == src(c, 'was_chromosome_size_set_'), c.f_('chromosome_size_') == src(c, 'chromosome_size_')))]))
