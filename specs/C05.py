from .base import *
from .C06 import *
from .C06 import N, N_, O, Ind, SMALL, add_cross, add_crossover
from .C22 import D
FILES = ['src/optimization/genetic_algorithm/individual.cpp', 'src/optimization/initialization_checker.cpp', 'src/common/random.cpp']
ASSUMPTIONS = ASSUMPTIONS + ['fewer than 2^31 - 1 rejected attempts in a row', 'a mutator keeps the length of a chromosome (C07 verifies those of the library)', 'GetRandomBool delivers the bits of C22 one after the other', 'reading text: operator>> takes the next word or number of the stream, or leaves an empty word or 0 when there is none']
rndbit = z3.Function('random_bit', z3.IntSort(), z3.BoolSort()); word = z3.Function('word_of_input', z3.IntSort(), z3.StringSort()); number = z3.Function('number_of_input', z3.IntSort(), RSORT)
def reading(X, st, op, args, n):
    """in >> x: the next word or number"""
    if op != '>>' or 'istream' not in X.prog.raw(args[0]): return NotImplemented
    s = X.ev(st, args[0]); l = X.ev(st, args[1]); p = Loc(('V', 'read'), (), I64); k = X.read(st, p)
    if not isinstance(l, Loc) or l.t.k not in ('str', 'real'): raise Unsupported('reading something else than words and numbers')
    X.write(st, l, word(k) if l.t.k == 'str' else number(k)); X.write(st, p, z3.simplify(k + 1)); return s
def fresh_fit(c): return [('without fitness', z3.Not(Ind(c, True).has))]
def build(reg, P):
    reg.ghosts['bits'] = I64; reg.ghosts['rejected'] = I64; reg.ghosts['read'] = I64; reg.streams = reading
    add_parts(reg); add_crossover(reg); add_cross(reg, 'rejected')
    bump = lambda c: c.g('rejected') + z3.If(okf(content(c, c.this)), I(0), I(1))
    reg.replace(Contract(O + 'IParameters::CheckConstraints', assumed=True, modifies=lambda c: [('V', 'rejected')], sets=lambda c: dict(rejected=bump(c)), returns=lambda c: okf(content(c, c.this)), ensures=lambda c: [('fewer than 2^31 - 1 rejected attempts', z3.And(c.g_('rejected') >= 0, c.g_('rejected') < 2**31 - 1))]))
    reg.add(Contract(D + 'GetRandomBool', assumed=True, note='verified in C22', modifies=lambda c: [('V', 'bits')], sets=lambda c: dict(bits=c.g('bits') + 1), returns=lambda c: rndbit(c.g('bits'))))
    reg.add(Contract(O + 'IMutator::MutateChromosome', assumed=True, modifies=lambda c: [c.arg(0).loc, ('V', 'rndpos')], ensures=lambda c: [('length kept', c.len(c.a_(0), VB) == c.len(c.a(0), VB))]))
    IC = O + 'InitializationChecker::'; flag = lambda c: [c.floc('was_initialized_')]
    reg.add(Contract(IC + 'InitializationChecker', nparams=0, modifies=flag, ensures=lambda c: [('not initialised', z3.Not(c.f_('was_initialized_')))]))
    reg.add(Contract(IC + 'InitializationCheck', throws=[('logic_error', lambda c: z3.Not(c.f('was_initialized_')))]))
    reg.add(Contract(IC + 'SetInitialized', modifies=flag, throws=[('logic_error', lambda c: c.f('was_initialized_'))], ensures=lambda c: [('initialised', c.f_('was_initialized_'))]))
    inv = lambda c: Ind(c).inv(); inv_ = lambda c: Ind(c, True).inv(); unready = ('logic_error', lambda c: z3.Not(Ind(c).ready))
    given = lambda c: [('parameters of fewer than 2^31 genes given', z3.And(c.a(0) > 0, psize(c, c.a(0)) >= 0, psize(c, c.a(0)) < SMALL))]
    whole = lambda c: [c.obj]
    def initial(c): q = Ind(c, True); return [('initialised', q.ready), ('a copy of the parameters of its own', z3.And(q.params > c.pre.alloc, q.content == content(c, c.a(0)))), ('never chosen', q.times == 0)] + inv_(c) + fresh_fit(c)
    reg.add(Contract(N_ + N, nparams=0, modifies=whole, ensures=lambda c: [('not initialised', z3.Not(Ind(c, True).ready)), ('never chosen', Ind(c, True).times == 0)] + fresh_fit(c)))
    reg.add(Contract(N_ + N, nparams=1, sig='IDiscreteParameters', requires=given, allocates=True, modifies=whole, ensures=initial))
    reg.add(Contract(N_ + 'Initialize', requires=given, allocates=True, modifies=whole, on_throw='modifies', throws=[('logic_error', lambda c: Ind(c).ready)], ensures=initial, throw_ensures=lambda c: inv_(c) + fresh_fit(c)))
    def copied(c, src=None):
        p = Ind(c, False, c.ref(0)); q = Ind(c, True)
        return [('the same chromosome', c.eq(VB, q.chrom, p.chrom)), ('the same state', z3.And(q.ready == p.ready, q.has == p.has, q.fitness == p.fitness, q.times == p.times)), ('an independent copy of the parameters', z3.Implies(p.ready, z3.And(q.params > c.pre.alloc, q.content == p.content)))] + inv_(c)
    source = lambda c: Ind(c, False, c.ref(0)).inv()
    reg.add(Contract(N_ + N, nparams=1, sig='Individual &', requires=source, allocates=True, modifies=whole, ensures=copied))
    reg.add(Contract(N_ + 'operator=', requires=lambda c: source(c) + [('another individual, or itself', z3.BoolVal(True))], allocates=True, modifies=whole, ensures=lambda c: [(n, z3.If(c.ref(0) == c.this, z3.And(c.eq(VB, Ind(c, True).chrom, Ind(c).chrom), *[getattr(Ind(c, True), f) == getattr(Ind(c), f) for f in ('params', 'has', 'fitness', 'times', 'ready')]), f)) for n, f in copied(c)]))
    reg.add(Contract(N_ + 'GetParametersAccordingToChromosome', requires=inv, throws=[unready], returns=lambda c: Ind(c).params))
    reg.add(Contract(N_ + 'GetChromosome', throws=[unready], returns=lambda c: Ind(c).chrom))
    nofit = [('logic_error', lambda c: z3.Not(Ind(c).has))]
    reg.add(Contract(N_ + 'HasFitness', returns=lambda c: Ind(c).has))
    reg.add(Contract(N_ + 'CheckForHavingFitness', internal=True, throws=nofit))
    reg.add(Contract(N_ + 'get_fitness', throws=nofit, returns=lambda c: Ind(c).fitness))
    reg.add(Contract(N_ + 'set_fitness', throws=[('logic_error', lambda c: c.a(0) < 0)], modifies=lambda c: [c.floc('fitness_'), c.floc('has_fitness_')], ensures=lambda c: [('the fitness given', z3.And(Ind(c, True).has, Ind(c, True).fitness == c.a(0)))]))
    reg.add(Contract(N_ + 'IsValid', requires=inv, throws=[unready], modifies=lambda c: [('V', 'rejected')], returns=lambda c: okf(Ind(c).content)))
    changes = lambda c: [c.floc('chromosome_'), c.floc('has_fitness_'), ('H', 'IParameters', '$content', Ind(c).params), ('V', 'rejected')]
    # attempts
    keep = lambda c, k: z3.And(Ind(c, True).n == Ind(c).n, z3.Not(Ind(c, True).has), Ind(c, True).params == Ind(c).params, Ind(c, True).ready)
    other = lambda c, k: others(c, Ind(c).params)
    count = lambda c, k: c.g_('rejected') >= c.g('rejected')
    def filled(c, k, n):
        """the genes filled so far are the latest bits"""
        return forall_range(I(0), n, lambda i: Ind(c, True).at(i) == rndbit(c.g_('bits') - n + i))
    allowed = lambda c: okf(Ind(c, True).content)
    def attempts(info):
        ok = [('an attempt that succeeded', lambda c, k, b: z3.Implies(b, allowed(c))), ('an attempt that failed', lambda c, k, b: z3.Implies(z3.Not(b), allowed(c)))]
        return in_loop(info, ('size and fitness', keep), ('other parameters', other), ('attempts counted', count), ('the parameters are the decoded chromosome', lambda c, k: Ind(c, True).agrees()), ('random genes', lambda c, k: filled(c, k, Ind(c).n))) \
            + in_loop_local(info, z3.BoolSort(), *ok) + in_loop_local(info, z3.IntSort(), ('rejected attempts', lambda c, k, v: v == c.g_('rejected') - c.g('rejected')))
    good = lambda c: inv_(c) + fresh_fit(c) + [('the constraints are satisfied', okf(Ind(c, True).content)), ('the number of rejected attempts', c.result == c.g_('rejected') - c.g('rejected')), ('as many genes as before', Ind(c, True).n == Ind(c).n)]
    countable = lambda c: inv(c) + [('attempts are counted from 0', c.g('rejected') >= 0)]
    reg.add(Contract(N_ + 'SetRandomChromosome', requires=countable, throws=[unready], modifies=lambda c: changes(c) + [('V', 'bits')], loops=[attempts], ensures=lambda c: good(c) + [('every gene is a random bit of the last attempt', filled(c, None, Ind(c).n))]))
    reg.add(Contract(N_ + 'Mutate', requires=lambda c: countable(c) + [('a mutator given', c.a(0) > 0)], throws=[unready], modifies=lambda c: changes(c) + [('V', 'rndpos')], loops=[attempts], ensures=good))
    # text
    def text(c): k = c.g('read'); return word(k + 1), number(k + 3)
    def one(i): return (lambda s: lambda ch: char_at(s, i) == ord(ch))
    bit = lambda s, i, ch: char_at(s, i) == ord(ch)
    def readable(c, n=None): s, x = text(c); return forall_range(I(0), z3.Length(s) if n is None else n, lambda i: z3.Or(bit(s, i, '0'), bit(s, i, '1')))
    who = lambda c, post=False: Ind(c, post, c.ref(1))
    def genes(c, k, at): s, x = text(c); return forall_range(I(0), k, lambda i: at(i) == bit(s, i, '1'))
    def scanning(info): return in_loop(info, ('characters so far', lambda c, k: readable(c, k))) + in_loop_vec(info, VB, None, ('genes so far', lambda c, k, v: genes(c, k, lambda i: c.at(v, i, VB))), ('length', lambda c, k, v: c.len(v, VB) == z3.Length(text(c)[0])))
    refused = lambda c: z3.Or(z3.Not(who(c).ready), z3.Length(text(c)[0]) != who(c).n, z3.Not(readable(c)), text(c)[1] < 0)
    reg.add(Contract(O + 'operator>>', nparams=2, sig='Individual', requires=lambda c: who(c).inv(), throws=[('logic_error', refused)], loops=[scanning], modifies=lambda c: [('H', N, f, c.ref(1)) for f in ('chromosome_', 'fitness_', 'has_fitness_')] + [('H', 'IParameters', '$content', who(c).params), ('V', 'read')], on_throw=lambda c: [('V', 'read')],
        ensures=lambda c: [('every gene is its character', genes(c, who(c).n, who(c, True).at)), ('the fitness read', z3.And(who(c, True).has, who(c, True).fitness == text(c)[1]))] + who(c, True).inv()))
