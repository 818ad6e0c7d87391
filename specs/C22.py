from .base import *
from engine.contracts import rand_seq
FILES = ['src/common/random.cpp']
D = 'k52::common::Random::'
MAX = 2**31 - 1
ASSUMPTIONS = ['rand() delivers values in [0, RAND_MAX] with RAND_MAX = 2^31 - 1, each of them possible']
def draw(c, k=0): return rand_seq(c.X)(c.g('rndpos') + k)
def one(c): return dict(rndpos=c.g('rndpos') + 1)      # takes one number from the random source
def base(c): return z3.ToReal(draw(c)) / MAX
def add_random(reg):
    """contracts of the random source as callers see it"""
    src = lambda c: [('V', 'rndpos')]
    reg.add(Contract(D + 'Instance', assumed=True, note='the one random source object, made on the first call', returns=lambda c: z3.Int('the_random_source'), ensures=lambda c: [('an object', z3.And(c.result > 0, c.result <= c.pre.alloc))]))
    reg.add(Contract(D + 'ValidateProbability', throws=[('invalid_argument', lambda c: z3.Or(c.a(0) < 0, c.a(0) > 1))]))
    reg.add(Contract(D + 'GetBaseRandomQuantity', modifies=src, sets=one, returns=base, ensures=lambda c: [('within [0, 1]', z3.And(0 <= c.result, c.result <= 1)) ]))
    reg.add(Contract(D + 'GetContinuousRandomQuantity', modifies=src, sets=one, returns=lambda c: base(c) * (c.a(1) - c.a(0)) + c.a(0),
        ensures=lambda c: [('within the interval', z3.Implies(c.a(0) <= c.a(1), z3.And(c.a(0) <= c.result, c.result <= c.a(1)))) ]))
    span = lambda c: c.a(1) - c.a(0) + 1
    ends = lambda c: [('both ends are reachable', z3.Implies(z3.And(span(c) >= 1, span(c) <= MAX), z3.And(c.a(0) + z3.IntVal(0) % span(c) == c.a(0), span(c) - 1 <= MAX, c.a(0) + (span(c) - 1) % span(c) == c.a(1))))]
    reg.add(Contract(D + 'GetUniformlyDistributedDiscreteRandomQuantity', requires=lambda c: [('an interval of fewer than 2^31 integers', z3.And(span(c) >= 1, span(c) <= MAX))], modifies=src, sets=one, lemmas=ends,
        returns=lambda c: c.a(0) + draw(c) % span(c), ensures=lambda c: [('within the interval', z3.And(c.a(0) <= c.result, c.result <= c.a(1))) ]))
    reg.add(Contract(D + 'GenerateRandomVector', requires=lambda c: [('an interval', c.a(1) <= c.a(2))], modifies=src, sets=lambda c: dict(rndpos=c.g('rndpos') + c.a(0)),
        ensures=lambda c: [('requested size', c.len(c.result) == c.a(0)), ('every element within the interval', forall_range(I(0), c.a(0), lambda i: z3.And(c.a(1) <= c.at(c.result, i), c.at(c.result, i) <= c.a(2))))]))
    reg.add(Contract(D + 'CheckEventOutcome', modifies=src, sets=one, throws=[('invalid_argument', lambda c: z3.Or(c.a(0) < 0, c.a(0) > 1))], returns=lambda c: base(c) <= c.a(0),
        ensures=lambda c: [('certain', z3.Implies(c.a(0) == 1, c.result)), ('impossible unless the draw is 0', z3.Implies(z3.And(c.a(0) == 0, c.result), draw(c) == 0))]))
def build(reg, P):
    add_random(reg)
    B = lambda v: z3.BitVecVal(v, 32)
    reg.add(Contract(D + 'Random', nparams=0, unroll=40, modifies=lambda c: [c.obj, ('V', 'rndpos')], sets=one,
        ensures=lambda c: [('starts with the first bit of a draw', z3.And(c.f_('bool_base_') == draw(c), c.f_('next_bit_in_bool_base_') == 0)), ('uses the 31 bits the source delivers', c.f_('max_bit_in_bool_base_') == 30) ]))
    def inv(c, f): return [('bits within the range of the source', z3.And(f('max_bit_in_bool_base_') == 30, f('next_bit_in_bool_base_') >= 0, f('next_bit_in_bool_base_') <= 31, f('bool_base_') >= 0))]
    fields = lambda c: [c.floc('bool_base_'), c.floc('next_bit_in_bool_base_'), ('V', 'rndpos')]
    def used(c):
        spent = c.f('next_bit_in_bool_base_') == 31
        d = rand_seq(c.X)(c.g('rndpos'))
        return z3.If(spent, d, c.f('bool_base_')), z3.If(spent, B(0), c.f('next_bit_in_bool_base_')), spent
    def bits(c):
        b, i, spent = used(c)
        return inv(c, c.f_) + [('the draw is kept until its bits are used', c.f_('bool_base_') == b), ('moves on to the next bit', c.f_('next_bit_in_bool_base_') == i + 1), ('draws only when all bits are used', c.g_('rndpos') == z3.If(spent, c.g('rndpos') + 1, c.g('rndpos')))]
    def bit(c): b, i, _ = used(c); return (z3.LShR(b, i) & 1) == 0
    reg.add(Contract(D + 'GetNextBitFromBoolBase', internal=True, bv=True, requires=lambda c: inv(c, c.f), modifies=fields, ensures=lambda c: bits(c) + [('the bit of the position', (c.result == 0) == bit(c))]))
    reg.add(Contract(D + 'GetRandomBool', bv=True, requires=lambda c: inv(c, c.f), modifies=fields, returns=bit, ensures=bits))
