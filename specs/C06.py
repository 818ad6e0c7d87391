from .base import *
from .C22 import add_random, draw
from .C04 import add_parts, content, psize, slice_is, okf, gene, DC
from .C24 import add_sizes
FILES = ['src/optimization/genetic_algorithm/individual.cpp', 'src/optimization/initialization_checker.cpp', 'src/common/random.cpp']
O = 'k52::optimization::'; N_ = O + 'Individual::'; N = 'Individual'
ASSUMPTIONS = ['parameters of an individual through the contract of their interface, as in C04', 'chromosomes of fewer than 2^31 genes', 'an individual is crossed with another one, not with itself']
SMALL = 2**31 - 1
class Ind:
    """an individual"""
    def __init__(s, c, post=False, r=None):
        s.c, s.post = c, post; g = c.of_ if post else c.of; s.r = r = c.this if r is None else r; st = c.post if post else c.pre
        s.params, s.chrom, s.has, s.fitness, s.times = (g(r, N, f) for f in ('parameters_', 'chromosome_', 'has_fitness_', 'fitness_', 'times_chosen_for_crossover_'))
        ck = c.X.field(st, c.objloc(r, N), 'initialization_checker_'); s.ready = c.X.read(st, ck.sub(('f', 'was_initialized_', ck.t), BOOL))
        s.n = c.len(s.chrom, VB); s.content = content(c, s.params, post); s.alloc = st.alloc
    def at(s, i): return s.c.at(s.chrom, i, VB)
    def agrees(s): return slice_is(s.c, s.chrom, I(0), s.n, s.content)
    def inv(s):
        return [('parameters of its own', z3.Implies(s.ready, z3.And(s.params > 0, s.params <= s.alloc))), ('a gene for every gene of the parameters', z3.Implies(s.ready, z3.And(s.n == psize(s.c, s.params, s.post), s.n < SMALL))),
            ('the parameters are the decoded chromosome', z3.Implies(s.ready, s.agrees()))]
def exchanged(c, n, old, new, cut, i):
    """at position i of the chromosomes old and new (pairs)"""
    g = lambda v: c.at(v, i, VB)
    return z3.If(i < cut, z3.And(g(new[0]) == g(old[0]), g(new[1]) == g(old[1])), z3.And(g(new[0]) == g(old[1]), g(new[1]) == g(old[0])))
def crossed(c, old, new, k=None):
    n = c.len(old[0], VB); cut = draw(c) % n
    return [('lengths kept', z3.And(c.len(new[0], VB) == n, c.len(new[1], VB) == n)), ('genes from a uniformly drawn cut point on are exchanged, the others kept', forall_range(I(0), n, lambda i: exchanged(c, n, old, new, cut, i))),
        ('the last gene is exchanged', z3.Implies(n > 0, z3.And(c.at(new[0], n - 1, VB) == c.at(old[1], n - 1, VB), c.at(new[1], n - 1, VB) == c.at(old[0], n - 1, VB)))), ('one draw, none without genes', c.g_('rndpos') == z3.If(n > 0, c.g('rndpos') + 1, c.g('rndpos')))]
def add_crossover(reg):
    add_random(reg)
    pair = lambda c: (c.a(0), c.a(1)); pair_ = lambda c: (c.a_(0), c.a_(1)); n = lambda c: c.len(c.a(0), VB); cut = lambda c: draw(c) % n(c)
    def so_far(c, k): return forall_range(I(0), cut(c) + k, lambda i: exchanged(c, n(c), pair(c), pair_(c), cut(c), i))
    def rest(c, k): return forall_range(cut(c) + k, n(c), lambda i: z3.And(c.at(c.a_(0), i, VB) == c.at(c.a(0), i, VB), c.at(c.a_(1), i, VB) == c.at(c.a(1), i, VB)))
    def crossing(info): return in_loop(info, ('lengths', lambda c, k: z3.And(c.len(c.a_(0), VB) == n(c), c.len(c.a_(1), VB) == n(c))), ('exchanged so far', so_far), ('the rest as before', rest))
    reg.add(Contract(N_ + 'BoolCrossover', internal=True, requires=lambda c: [('fewer than 2^31 genes', c.len(c.a(0), VB) < SMALL)], throws=[('invalid_argument', lambda c: c.len(c.a(0), VB) != c.len(c.a(1), VB))], modifies=lambda c: [c.arg(0).loc, c.arg(1).loc, ('V', 'rndpos')], loops=[crossing], ensures=lambda c: crossed(c, pair(c), pair_(c))))
def chroms(c, post=False): return Ind(c, post).chrom, Ind(c, post, c.a(0)).chrom
def others(c, *rs):
    r = fresh('r', z3.IntSort())
    return z3.ForAll([r], z3.Implies(z3.And(*[r != x for x in rs]), content(c, r, True) == content(c, r)))
def both(c): return [('another initialised individual', z3.And(c.a(0) > 0, c.a(0) != c.this, Ind(c, False, c.a(0)).ready, Ind(c).params != Ind(c, False, c.a(0)).params))] + Ind(c).inv() + Ind(c, False, c.a(0)).inv()
def drop(c, *more): return [('H', N, f, r) for r in (c.this, c.a(0)) for f in ('has_fitness_',) + more]
def valid(c, r=None, post=True): return okf(Ind(c, post, r).content)
def add_cross(reg, *ghosts):
    reg.add(Contract(N_ + 'Crossover', requires=both, modifies=lambda c: drop(c, 'chromosome_') + [('H', 'IParameters', '$content'), ('V', 'rndpos')] + [('V', g) for g in ghosts], on_throw=lambda c: drop(c),
        throws=[('logic_error', lambda c: z3.Not(Ind(c).ready)), ('invalid_argument', lambda c: Ind(c).n != Ind(c, False, c.a(0)).n)],
        ensures=lambda c: crossed(c, chroms(c), chroms(c, True)) + [('the fitness of both is dropped', z3.And(z3.Not(Ind(c, True).has), z3.Not(Ind(c, True, c.a(0)).has))), ('success exactly when both satisfy the constraints', c.result == z3.And(valid(c), valid(c, c.a(0)))), ('other parameters are as before', others(c, Ind(c).params, Ind(c, False, c.a(0)).params))]
            + [(n + ' (first)', f) for n, f in Ind(c, True).inv()] + [(n + ' (second)', f) for n, f in Ind(c, True, c.a(0)).inv()]))
    reg.add(Contract(N_ + 'SetParametersAccordingToChromosome', internal=True, requires=lambda c: [('parameters of the size of the chromosome', z3.Implies(Ind(c).ready, z3.And(Ind(c).params > 0, Ind(c).params <= c.pre.alloc, Ind(c).n == psize(c, Ind(c).params))))],
        throws=[('logic_error', lambda c: z3.Not(Ind(c).ready))], modifies=lambda c: [('H', 'IParameters', '$content', Ind(c).params)],
        ensures=lambda c: [('the parameters are the decoded chromosome', Ind(c, True).agrees()), ('decoding what it encodes to leaves the content unchanged', z3.Implies(Ind(c).agrees(), Ind(c, True).content == Ind(c).content))]))
def build(reg, P):
    add_parts(reg); add_crossover(reg); add_cross(reg)
    IC = O + 'InitializationChecker::'
    reg.add(Contract(IC + 'InitializationCheck', throws=[('logic_error', lambda c: z3.Not(c.f('was_initialized_')))]))
