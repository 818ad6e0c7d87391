from .base import *
from .C24 import add_sizes
FILES = ['src/optimization/params/double_parameter.cpp', 'src/optimization/params/int_parameter.cpp', 'src/optimization/params/const_chromosome_size_paremeters.cpp']
O = 'k52::optimization::'; I_ = O + 'IntParameter::'; D_ = O + 'DoubleParameter::'; K = 'ConstChromosomeSizeParemeters'; IP = 'IntParameter'; DP = 'DoubleParameter'
ASSUMPTIONS = ['requested step counts below 2^30', 'integer parameters encode and decode as C02 proves over bit vectors (bit i of the value at position i of the slice); a value below 2^n is the only one with its n lowest bits (a lemma of C02)']
MAXM = 2**30 - 1
def p2(k):
    """2^k for k from 0 to 31"""
    r = I(2**31)
    for i in reversed(range(31)): r = z3.If(k == i, I(2**i), r)
    return r
def ones(m): return z3.Or(*[m == 2**i - 1 for i in range(1, 32)])
bitof = z3.Function('bit_of', z3.IntSort(), z3.IntSort(), z3.BoolSort())
class IPrm:
    """an integer parameter: f reads a field"""
    def __init__(s, f): s.value, s.lo, s.hi, s.size, s.set = f(IP, 'value_'), f(IP, 'min_value_'), f(IP, 'max_value_'), f(K, 'chromosome_size_'), f(K, 'was_chromosome_size_set_')
    def small(s): return z3.And(s.lo <= s.hi, s.hi - s.lo <= 2**30)
    def declared(s): return z3.And(s.set, smallest(s.size, s.lo, s.hi))
    def inside(s): return z3.And(s.lo <= s.value, s.value <= s.hi)
def smallest(size, lo, hi): return z3.And(size >= 0, size <= 31, hi - lo < p2(size), z3.Implies(size > 0, hi - lo >= p2(size - 1)))
def ihere(c): return IPrm(lambda k, n: c.of(c.this, k, n))
def iafter(c): return IPrm(lambda k, n: c.of_(c.this, k, n))
its = {'from': ('chromosome', VB), 'to': ('chromosome', VB)}
def span(c): return c.arg(0).idx, c.arg(1).idx
def ordered(c): f, t = span(c); return [('iterators in order', f <= t)]
def chrom(c, st): return c.X.read(st, c.arg(0).loc)
def only_slice(c):
    f, t = span(c); new, old = chrom(c, c.post), chrom(c, c.pre); n = c.len(old, VB)
    return [('length kept', c.len(new, VB) == n), ('nothing outside the slice', forall_range(I(0), n, lambda i: z3.Implies(z3.Or(i < f, i >= t), c.at(new, i, VB) == c.at(old, i, VB))))]
def encodes(c, v): f, t = span(c); new = chrom(c, c.post); return forall_range(f, t, lambda p: c.at(new, p, VB) == bitof(v, p - f))
# the genes of [f, t) of a chromosome are the lowest bits of g, and g has no others
codes = define('codes', [z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort(), z3.IntSort()], lambda a, f, t, g: z3.And(0 <= g, g < p2(t - f), forall_range(f, t, lambda p: bitof(g, p - f) == sel(a, p))))
def slice_codes(c, g): f, t = span(c); return codes(c.arr(chrom(c, c.pre), VB), f, t, g)
def decode_post(c, v):
    """v: the decoded value; values with equal bits are equal (a lemma of C02)"""
    g = fresh('g', z3.IntSort())
    return [('bit i of the value is element i of the slice', slice_codes(c, v)), ('the value is the one that encodes to the slice', z3.ForAll([g], z3.Implies(slice_codes(c, g), v == g)))]
def iinv(c): p = ihere(c); return [('a range up to 2^30', p.small()), ('declared size', p.declared())]
def add_int(reg):
    """integer parameters; encoding and decoding as verified in C02, the rest verified here over the integers"""
    rng = lambda lo, hi: [('a range up to 2^30', z3.And(lo <= hi, hi - lo <= 2**30))]
    built = lambda v, lo, hi: (lambda c: [('keeps value and range', z3.And(iafter(c).value == c.a(v), iafter(c).lo == c.a(lo), iafter(c).hi == c.a(hi))), ('declares the smallest size', iafter(c).declared())])
    reg.add(Contract(I_ + IP, nparams=2, requires=lambda c: rng(c.a(0), c.a(1)), modifies=lambda c: [c.obj], ensures=built(0, 0, 1)))
    reg.add(Contract(I_ + IP, nparams=3, requires=lambda c: rng(c.a(1), c.a(2)), modifies=lambda c: [c.obj], ensures=built(0, 1, 2)))
    reg.add(Contract(I_ + 'CountChromosomeSize', internal=True, requires=lambda c: rng(c.a(0), c.a(1)), ensures=lambda c: [('the smallest number of bits', smallest(c.result, c.a(0), c.a(1)))], unroll=34))
    for n, f in (('get_value', 'value_'), ('get_max_value', 'max_value_'), ('get_min_value', 'min_value_')): reg.add(Contract(I_ + n, returns=lambda c, f=f: c.f(f)))
    reg.add(Contract(I_ + 'set_value', modifies=lambda c: [c.floc('value_')], ensures=lambda c: [('stored', c.f_('value_') == c.a(0))]))
    reg.add(Contract(I_ + 'CheckConstraints', returns=lambda c: ihere(c).inside()))
    cl = lambda c: IPrm(lambda k, n: c.of_(c.result, k, n))
    reg.add(Contract(I_ + 'Clone', requires=iinv, allocates=True, ensures=lambda c: [('a new object', c.result > c.pre.alloc),
        ('same value, range and size', z3.And(cl(c).value == ihere(c).value, cl(c).lo == ihere(c).lo, cl(c).hi == ihere(c).hi, cl(c).set, cl(c).size == ihere(c).size))]))
    reg.add(Contract(I_ + 'HasSameMetaParameters', throws=[('runtime_error', lambda c: z3.Or(c.a(0) == 0, z3.Not(c.X.isinst(c.a(0), IP))))],
        returns=lambda c: z3.And(c.of(c.a(0), IP, 'min_value_') == c.f('min_value_'), c.of(c.a(0), IP, 'max_value_') == c.f('max_value_'))))
    wrong = [('invalid_argument', lambda c: span(c)[1] - span(c)[0] != ihere(c).size)]
    reg.add(Contract(I_ + 'SetChromosome', assumed=True, note='verified in C02', iters=its, requires=lambda c: iinv(c) + ordered(c) + [('a value of the range', ihere(c).inside())], throws=wrong, modifies=lambda c: [c.arg(0).loc],
        ensures=lambda c: [('bit i of the value at position i of the slice', encodes(c, ihere(c).value - ihere(c).lo))] + only_slice(c)))
    reg.add(Contract(I_ + 'SetFromChromosome', assumed=True, note='verified in C02', iters=its, requires=lambda c: iinv(c) + ordered(c) + [('the largest pattern is an int', ihere(c).lo + p2(ihere(c).size) - 1 < 2**31)], throws=wrong, modifies=lambda c: [c.floc('value_')],
        ensures=lambda c: decode_post(c, iafter(c).value - ihere(c).lo)))
class DPrm:
    """a real parameter: f reads a field of an object"""
    def __init__(s, this, f):
        s.lo, s.hi, s.step, s.base = f(this, DP, 'min_value_'), f(this, DP, 'max_value_'), f(this, DP, 'precision_'), f(this, DP, 'base_int_parameter_')
        s.set, s.size = f(this, K, 'was_chromosome_size_set_'), f(this, K, 'chromosome_size_')
        s.i = IPrm(lambda k, n: f(s.base, k, n)); s.M = s.i.hi
    def value(s): return s.lo + z3.ToReal(s.i.value) * s.step
    def shape(s):
        """everything but the value is in order"""
        return s.steps() + [('declared size', z3.And(s.set, s.size == s.i.size))]
    def steps(s):
        return [('an interval', s.lo < s.hi), ('equal steps from min to max', z3.And(s.step > 0, z3.ToReal(s.M) * s.step == s.hi - s.lo)), ('every chromosome is a step', z3.And(s.i.lo == 0, s.M >= 1, s.M <= MAXM, s.M + 1 == p2(s.i.size))),
                ('an integer parameter in order', z3.And(s.i.size >= 1, s.i.size <= 30, s.i.set, s.base > 0))]
    def inv(s): return s.shape() + [('a step of the interval', s.i.inside())]
    def inside(s, v): return z3.And(s.lo <= v, v <= s.hi)
def here(c, r=None): return DPrm(c.this if r is None else r, c.of)
def after(c, r=None): return DPrm(c.this if r is None else r, c.of_)
def inv(c): return here(c).inv()
def owned(c, r): p = here(c, r); return p.base <= c.pre.alloc
def near(p, v): return z3.And(p.value() - v <= p.step / 2, v - p.value() <= p.step / 2)
def strictly(p, v, g): return z3.And(p.lo + z3.ToReal(g) * p.step - v < p.step / 2, v - (p.lo + z3.ToReal(g) * p.step) < p.step / 2)
def stored(c, p, q, v):
    """q: the parameter after setting v"""
    g = fresh('g', z3.IntSort())
    return [('the nearest step', near(q, v)), ('a step nearer than half a step is the one stored', z3.ForAll([g], z3.Implies(strictly(p, v, g), q.i.value == g))), ('a step of the interval', q.i.inside()), ('the steps are as before', z3.And(q.base == p.base, q.lo == p.lo, q.hi == p.hi, q.step == p.step))]
def same_shape(p, q): return z3.And(q.lo == p.lo, q.hi == p.hi, q.step == p.step, q.i.lo == p.i.lo, q.M == p.M, q.i.size == p.i.size, q.i.set == p.i.set, q.size == p.size, q.set == p.set)
def steps_of(c): return (c.a(2) - c.a(1)) / c.a(3)
def bad(c): return z3.Or(c.a(2) <= c.a(1), c.a(0) < c.a(1), c.a(0) > c.a(2))
def add_double(reg, assumed=False):
    kw = dict(assumed=assumed, note='verified in C03') if assumed else {}
    reg.add(Contract(D_ + DP, nparams=4, allocates=True, modifies=lambda c: [c.obj], **kw,
        requires=lambda c: [('a requested step, and fewer than 2^30 steps', z3.Or(bad(c), z3.And(c.a(3) != 0, steps_of(c) <= MAXM, steps_of(c) >= -MAXM)))],
        throws=[('invalid_argument', lambda c: z3.Or(bad(c), steps_of(c) <= 0))],
        ensures=lambda c: after(c).inv() + [('keeps the interval', z3.And(after(c).lo == c.a(1), after(c).hi == c.a(2))), ('steps no larger than asked', after(c).step <= c.a(3)), ('starts within half a step of the value', near(after(c), c.a(0))), ('its own integer parameter', after(c).base > c.pre.alloc)]))
    reg.add(Contract(D_ + 'SetValue', requires=lambda c: here(c).steps() + [('a value inside the interval', here(c).inside(c.a(0)))], modifies=lambda c: [('H', IP, 'value_', here(c).base)], **kw,
        ensures=lambda c: stored(c, here(c), after(c), c.a(0)) + [('setting the value it has changes nothing', z3.Implies(c.a(0) == here(c).value(), after(c).i.value == here(c).i.value))]))
    reg.add(Contract(D_ + 'GetValue', requires=inv, returns=lambda c: here(c).value(), ensures=lambda c: [('inside the interval', here(c).inside(c.result)), ('the last step is the maximum itself', z3.Implies(here(c).i.value == here(c).M, c.result == here(c).hi))], **kw))
    for n, f in (('get_max_value', 'max_value_'), ('get_min_value', 'min_value_'), ('get_actual_precision', 'precision_')): reg.add(Contract(D_ + n, returns=lambda c, f=f: c.f(f), **kw))
    reg.add(Contract(D_ + 'CheckBounds', internal=True, returns=lambda c: z3.And(c.a(0) >= c.f('min_value_'), c.a(0) <= c.f('max_value_')), **kw))
    reg.add(Contract(D_ + 'CheckConstraints', requires=inv, returns=lambda c: here(c).inside(here(c).value()), ensures=lambda c: [('a parameter in order meets its constraints', c.result)], **kw))
    wrong = [('invalid_argument', lambda c: span(c)[1] - span(c)[0] != here(c).size)]
    reg.add(Contract(D_ + 'SetChromosome', iters=its, requires=lambda c: inv(c) + ordered(c), throws=wrong, modifies=lambda c: [c.arg(0).loc], ensures=lambda c: [('bit i of the step at position i of the slice', encodes(c, here(c).i.value))] + only_slice(c), **kw))
    reg.add(Contract(D_ + 'SetFromChromosome', iters=its, requires=lambda c: inv(c) + ordered(c), throws=wrong, modifies=lambda c: [('H', IP, 'value_', here(c).base)], **kw,
        ensures=lambda c: decode_post(c, after(c).i.value) + [('a step of the interval', after(c).i.inside())]))
    def clone(c):
        p, q = here(c), after(c, c.result)
        return [('a new object with an integer parameter of its own', z3.And(c.result > c.pre.alloc, q.base > c.pre.alloc, q.base != c.result)), ('the same interval, steps and size', same_shape(p, q)), ('the same value', q.i.value == p.i.value)]
    reg.add(Contract(D_ + 'Clone', requires=inv, allocates=True, ensures=clone, **kw))
    other = lambda c: z3.Or(c.a(0) == 0, z3.Not(c.X.isinst(c.a(0), DP)))
    reg.add(Contract(D_ + 'HasSameMetaParameters', requires=lambda c: inv(c) + [('the other parameter is in order', z3.Or(other(c), z3.And(*[f for _, f in here(c, c.a(0)).inv()], c.X.isinst(here(c, c.a(0)).base, IP))))], throws=[('runtime_error', other)],
        returns=lambda c: z3.And(*[getattr(here(c), n) == getattr(here(c, c.a(0)), n) for n in ('lo', 'hi', 'step', 'M')]), **kw))
def build(reg, P):
    add_sizes(reg); add_int(reg); add_double(reg)
    reg.add(Contract(D_ + 'GetMaxInt', internal=True, requires=lambda c: [('fewer than 2^30 steps', z3.And(c.a(2) != 0, (c.a(1) - c.a(0)) / c.a(2) <= MAXM, (c.a(1) - c.a(0)) / c.a(2) >= -MAXM))], throws=[('invalid_argument', lambda c: (c.a(1) - c.a(0)) / c.a(2) <= 0)],
        ensures=lambda c: [('enough steps', z3.And(z3.ToReal(c.result) >= (c.a(1) - c.a(0)) / c.a(2), c.result >= 1, c.result <= MAXM))]))
    def grow(info):
        if not info.qual.endswith('CountBestMaxInt'): return []
        return [('every bit is set', lambda v: ones(v.var('best_max_int'))), ('no more than 2^30 steps', lambda v: v.var('best_max_int') <= MAXM)]
    reg.add(Contract(D_ + 'CountBestMaxInt', internal=True, requires=lambda c: [('fewer than 2^30 steps', z3.And(c.a(0) >= 1, c.a(0) <= MAXM))], loops=[grow],
        ensures=lambda c: [('all ones and no fewer steps', z3.And(ones(c.result), c.result >= c.a(0), c.result <= MAXM))]))
