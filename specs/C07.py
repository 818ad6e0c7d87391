from .base import *
from .C22 import add_random, draw, base, one
FILES = ['src/optimization/genetic_algorithm/gen_mutator_base.cpp', 'src/optimization/genetic_algorithm/flip_bit_mutator.cpp', 'src/optimization/genetic_algorithm/linear_mutator.cpp', 'src/common/random.cpp']
O = 'k52::optimization::'; B = 'GenMutatorBase'
ASSUMPTIONS = ['answers of a policy are numbered in the order they are given (decision(i)); asking and telling it changes the policy only', 'probabilities of the flip-bit policy of at least 1e-9 (or negative)', 'at least two generations, the current one among them']
decision = z3.Function('decision', z3.IntSort(), z3.BoolSort())
CTX = T('rec', 'MutationContext')
def asked(c): return c.of(c.this, B, '$asked')
def asked_(c): return c.of_(c.this, B, '$asked')
def policy(reg):
    reg.ghost_fields[(B, '$asked')] = reg.ghost_fields[(B, '$told')] = I64
    reg.add(Contract(O + B + '::ShouldMutateCurrentGen', assumed=True, requires=lambda c: [('told about the gene before', c.of(c.this, B, '$told') == asked(c))], modifies=lambda c: [('H', B, '$asked', c.this), ('V', 'rndpos')], returns=lambda c: decision(asked(c)), ensures=lambda c: [('asked once more', asked_(c) == asked(c) + 1)]))
    reg.add(Contract(O + B + '::AfterGenProcessed', this_cls=B, assumed=True, note='of any policy', requires=lambda c: [('told once after each question', c.of(c.this, B, '$told') + 1 == asked(c)), ('told what it answered', c.a(0) == decision(asked(c) - 1))], modifies=lambda c: [('H', B, '$told', c.this), ('V', 'rndpos')], ensures=lambda c: [('told about every gene it was asked for', c.of_(c.this, B, '$told') == asked_(c))]))
def build(reg, P):
    add_random(reg); policy(reg)
    def mutated(c, k): return forall_range(I(0), k, lambda i: c.at(c.a_(0), i, VB) == z3.Xor(c.at(c.a(0), i, VB), decision(asked(c) + i)))
    def rest(c, k): return forall_range(k, c.len(c.a(0), VB), lambda i: c.at(c.a_(0), i, VB) == c.at(c.a(0), i, VB))
    def flipping(info): return in_loop(info, ('asked once per gene', lambda c, k: z3.And(asked_(c) == asked(c) + k, c.of_(c.this, B, '$told') == asked_(c))), ('the genes so far are mutated', mutated), ('the other genes are as before', rest), ('length', lambda c, k: c.len(c.a_(0), VB) == c.len(c.a(0), VB)))
    reg.add(Contract(O + B + '::MutateChromosome', this_cls=B, requires=lambda c: [('told about all genes before', c.of(c.this, B, '$told') == asked(c))], modifies=lambda c: [c.arg(0).loc, ('H', B, '$asked', c.this), ('H', B, '$told', c.this), ('V', 'rndpos')], loops=[flipping],
        ensures=lambda c: [('length kept', c.len(c.a_(0), VB) == c.len(c.a(0), VB)), ('asked once per gene, in order', asked_(c) == asked(c) + c.len(c.a(0), VB)), ('told about every gene', c.of_(c.this, B, '$told') == asked_(c)), ('exactly the selected genes are inverted', mutated(c, c.len(c.a(0), VB)))]))
    rec = lambda c, v, f: c.ctx.rget(CTX, v, f)
    same = lambda c, v, w: z3.And(rec(c, v, 'current_generation') == rec(c, w, 'current_generation'), rec(c, v, 'max_number_of_generations') == rec(c, w, 'max_number_of_generations'))
    reg.add(Contract(O + B + '::ApplyNewMutationContext', this_cls=B, modifies=lambda c: [c.floc('mutation_context_')], ensures=lambda c: [('stored', same(c, c.f_('mutation_context_'), c.a(0)))]))
    # flip bit
    F = O + 'FlipBitMutator::'
    def state(c, f): return z3.And(f('currently_skipped_gens_') >= 0, f('currently_skipped_gens_') <= f('gens_to_skip_now_'), f('gens_to_skip_now_') <= f('max_number_of_skipped_gens_'), f('max_number_of_skipped_gens_') < 2**30)
    inv = lambda c: [('genes skipped up to the gap', state(c, c.f))]
    gap = lambda c: c.f('currently_skipped_gens_') == c.f('gens_to_skip_now_')
    def drawn(c): return [('the next gap is drawn uniformly', c.f_('gens_to_skip_now_') == draw(c) % (c.f_('max_number_of_skipped_gens_') + 1)), ('no gene of it skipped yet', c.f_('currently_skipped_gens_') == 0)]
    maxgap = lambda c: z3.ToInt(1 / c.a(0)) - 1
    reg.add(Contract(F + 'FlipBitMutator', nparams=1, requires=lambda c: [('a probability of at least 1e-9', z3.Or(c.a(0) >= R('1/1000000000'), c.a(0) <= R('-1/1000000000')))], throws=[('invalid_argument', lambda c: maxgap(c) <= 0)], modifies=lambda c: [c.obj, ('V', 'rndpos')], on_throw='modifies',
        ensures=lambda c: [('the largest gap', c.f_('max_number_of_skipped_gens_') == maxgap(c)), ('a gap up to the largest', state(c, c.f_)), ('one draw', c.g_('rndpos') == c.g('rndpos') + 1)] + drawn(c)))
    reg.add(Contract(F + 'ShouldMutateCurrentGen', requires=inv, returns=gap))
    reg.add(Contract(F + 'SetGensToSkipNow', internal=True, requires=lambda c: [('a gap', z3.And(c.f('max_number_of_skipped_gens_') > 0, c.f('max_number_of_skipped_gens_') < 2**30))], modifies=lambda c: [c.floc('gens_to_skip_now_'), c.floc('currently_skipped_gens_'), ('V', 'rndpos')], sets=one, ensures=lambda c: drawn(c) + [('a gap up to the largest', state(c, c.f_))]))
    reg.add(Contract(F + 'AfterGenProcessed', requires=lambda c: inv(c) + [('told what it answered', c.a(0) == gap(c)), ('a gap', c.f('max_number_of_skipped_gens_') > 0)], modifies=lambda c: [c.floc('gens_to_skip_now_'), c.floc('currently_skipped_gens_'), ('V', 'rndpos')],
        ensures=lambda c: [('skips up to the gap', state(c, c.f_)), ('a flipped gene starts a new gap', z3.Implies(c.a(0), z3.And(*[f for _, f in drawn(c)], c.g_('rndpos') == c.g('rndpos') + 1))),
            ('a skipped gene counts', z3.Implies(z3.Not(c.a(0)), z3.And(c.f_('currently_skipped_gens_') == c.f('currently_skipped_gens_') + 1, c.f_('gens_to_skip_now_') == c.f('gens_to_skip_now_'), c.g_('rndpos') == c.g('rndpos'))))]))
    # linear
    L = O + 'LinearMutator::'
    bad = lambda p: z3.Or(p < 0, p > 1)
    reg.add(Contract(L + 'LinearMutator', nparams=2, modifies=lambda c: [c.obj], throws=[('invalid_argument', lambda c: z3.Or(bad(c.a(0)), bad(c.a(1))))], ensures=lambda c: [('keeps both values', z3.And(c.f_('start_mutation_value_') == c.a(0), c.f_('end_mutation_value_') == c.a(1)))]))
    fs = lambda c: (c.f('start_mutation_value_'), c.f('end_mutation_value_'))
    gen = lambda c: (rec(c, c.of(c.this, B, 'mutation_context_'), 'current_generation'), rec(c, c.of(c.this, B, 'mutation_context_'), 'max_number_of_generations'))
    def linear(c): s, e = fs(c); g, m = gen(c); return s + (e - s) * z3.ToReal(g) / (z3.ToReal(m) - 1)
    lreq = lambda c: [('probabilities', z3.And(*[z3.And(p >= 0, p <= 1) for p in fs(c)])), ('a generation of at least two', z3.And(gen(c)[1] >= 2, gen(c)[0] >= 0, gen(c)[0] < gen(c)[1]))]
    def between(c, p): s, e = fs(c); return z3.And(imin(s, e) <= p, p <= imax(s, e))
    def ends(c): s, e = fs(c); g, m = gen(c); return [('between the two values', between(c, linear(c))), ('the start value in the first generation', z3.Implies(g == 0, linear(c) == s)), ('the end value in the last generation', z3.Implies(g == m - 1, linear(c) == e)), ('a probability', z3.And(linear(c) >= 0, linear(c) <= 1))]
    reg.add(Contract(L + 'GetCurrentGenMutationProbability', internal=True, requires=lreq, returns=linear, ensures=ends))
    reg.add(Contract(L + 'ShouldMutateCurrentGen', requires=lreq, modifies=lambda c: [('V', 'rndpos')], sets=one, returns=lambda c: base(c) <= linear(c), ensures=ends))
