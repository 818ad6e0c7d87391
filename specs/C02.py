from .base import *
FILES = ['src/optimization/params/int_parameter.cpp', 'src/optimization/params/const_chromosome_size_paremeters.cpp']
O = 'k52::optimization::'; P_ = O + 'IntParameter::'; K = 'ConstChromosomeSizeParemeters'
ASSUMPTIONS = ['an int has 32 bits, a long long and a size_t 64', 'ranges with max - min up to 2^30']
B32 = lambda v: z3.BitVecVal(v, 32)
B64 = lambda v: z3.BitVecVal(v, 64)
sx = lambda v: z3.SignExt(32, v)
zx = lambda v: z3.ZeroExt(32, v)
def all_u64(hi, f):
    h = z3.simplify(hi)
    if z3.is_bv_value(h) and h.as_long() <= 64: return z3.And(*[f(B64(i)) for i in range(h.as_long())])
    i = fresh('i', z3.BitVecSort(64)); return z3.ForAll([i], z3.Implies(z3.ULT(i, hi), f(i)))
def bit(v, i): return z3.Extract(0, 0, z3.LShR(v, z3.Extract(31, 0, i))) == 1
def smallest(size, lo, hi):
    """size is the least number of bits that represents every value from 0 to hi - lo"""
    d = sx(hi) - sx(lo)
    return z3.And(z3.ULE(size, B64(31)), z3.LShR(d, size) == 0, z3.Implies(size != 0, z3.LShR(d, size - 1) != 0))
class Prm:
    def __init__(s, c, f, size): s.value, s.lo, s.hi, s.size, s.set = f('value_'), f('min_value_'), f('max_value_'), size('chromosome_size_'), size('was_chromosome_size_set_')
    def range(s): return z3.And(s.lo <= s.hi, sx(s.hi) - sx(s.lo) <= B64(2**30))
    def declared(s): return z3.And(s.set, smallest(s.size, s.lo, s.hi))
    def inside(s): return z3.And(s.lo <= s.value, s.value <= s.hi)
def here(c): return Prm(c, c.f, c.f)
def after(c): return Prm(c, c.f_, c.f_)
def fresh_range(lo, hi): return [('a range up to 2^30', z3.And(lo <= hi, sx(hi) - sx(lo) <= B64(2**30)))]
def inv(c): p = here(c); return [('a range up to 2^30', p.range()), ('declared size', p.declared())]
its = {'from': ('chromosome', VB), 'to': ('chromosome', VB)}
def span(c): return c.a('from').idx, c.a('to').idx
def chrom(c, st): return c.X.read(st, c.a('from').loc)
def bad_size(c): f, t = span(c); return t - f != here(c).size
def ordered(c): f, t = span(c); return [('iterators in order', z3.ULE(f, t))]
def slice_case(c, n):
    """the slice has n elements"""
    c.args = list(c.args); f, t = c.args[0], c.args[1]; new = It(t.loc, z3.simplify(f.idx + n)); c.args[1] = new
    c.pre.cells[('L', c.fn.params[1]['id'])] = new
    ln = c.len(chrom(c, c.pre), VB); c.pre.assume(z3.ULE(new.idx, ln), z3.ULE(f.idx, new.idx))
by_size = dict(cases=range(32), setup_case=slice_case, cover=lambda c, n: span(c)[1] == span(c)[0] + n, unroll=33)
def extensional(c):
    a, b = z3.BitVec('a', 32), z3.BitVec('b', 32)
    return [('values with equal bits are equal, so distinct values have distinct chromosomes and decoding inverts encoding', z3.Implies(z3.And(*[z3.Extract(i, i, a) == z3.Extract(i, i, b) for i in range(32)]), a == b))]
def encode_post(c, value, f, t):
    new, old = chrom(c, c.post), chrom(c, c.pre); n = c.len(old, VB)
    at = lambda v, i: c.ctx.vget(VB, v, i)
    return [('length kept', c.len(new, VB) == n), ('bit i of the value at position i of the slice', all_u64(t - f, lambda i: at(new, f + i) == bit(value, i))),
            ('nothing outside the slice', all_u64(n, lambda i: z3.Implies(z3.Or(z3.ULT(i, f), z3.UGE(i, t)), at(new, i) == at(old, i))))]
def decoded(c, v, f, t):
    """the integer whose bit i is element i of the slice"""
    return z3.And(all_u64(t - f, lambda i: bit(v, i) == c.ctx.vget(VB, chrom(c, c.pre), f + i)), z3.LShR(zx(v), t - f) == 0)
def build(reg, P):
    bv = dict(bv=True)
    built = lambda v, lo, hi: (lambda c: [('keeps value and range', z3.And(after(c).value == v(c), after(c).lo == lo(c), after(c).hi == hi(c))), ('declares the smallest size', after(c).declared())])
    reg.add(Contract(P_ + 'IntParameter', nparams=2, requires=lambda c: fresh_range(c.a(0), c.a(1)), modifies=lambda c: [c.obj], ensures=built(lambda c: c.a(0), lambda c: c.a(0), lambda c: c.a(1)), **bv))
    reg.add(Contract(P_ + 'IntParameter', nparams=3, requires=lambda c: fresh_range(c.a(1), c.a(2)), modifies=lambda c: [c.obj], ensures=built(lambda c: c.a(0), lambda c: c.a(1), lambda c: c.a(2)), **bv))
    reg.add(Contract(P_ + 'CountChromosomeSize', internal=True, unroll=34, requires=lambda c: fresh_range(c.a(0), c.a(1)), ensures=lambda c: [('the smallest number of bits', smallest(c.result, c.a(0), c.a(1)))], **bv))
    reg.add(Contract(O + K + '::GetChromosomeSize', this_cls='IntParameter', requires=inv, returns=lambda c: here(c).size, **bv))
    for n, f in (('get_value', 'value_'), ('get_max_value', 'max_value_'), ('get_min_value', 'min_value_')): reg.add(Contract(P_ + n, returns=lambda c, f=f: c.f(f), **bv))
    reg.add(Contract(P_ + 'set_value', modifies=lambda c: [c.floc('value_')], ensures=lambda c: [('stored', c.f_('value_') == c.a(0))], **bv))
    reg.add(Contract(P_ + 'CheckConstraints', returns=lambda c: here(c).inside(), **bv))
    clone_of = lambda c: Prm(c, lambda n: c.of_(c.result, 'IntParameter', n), lambda n: c.of_(c.result, K, n))
    reg.add(Contract(P_ + 'Clone', requires=inv, allocates=True, ensures=lambda c: [('a new object', z3.And(c.result != 0, c.result > c.pre.alloc)),
        ('same value, range and size', z3.And(clone_of(c).value == here(c).value, clone_of(c).lo == here(c).lo, clone_of(c).hi == here(c).hi, clone_of(c).set, clone_of(c).size == here(c).size))], **bv))
    reg.add(Contract(P_ + 'SetChromosome', iters=its, requires=lambda c: inv(c) + ordered(c) + [('a value of the range', here(c).inside())], throws=[('invalid_argument', bad_size)], modifies=lambda c: [c.a('from').loc], lemmas=extensional,
        ensures=lambda c: encode_post(c, here(c).value - here(c).lo, *span(c)), **bv))
    reg.add(Contract(P_ + 'SetChromosomeFromInt', internal=True, iters=its, **by_size, requires=lambda c: ordered(c) + [('at most 31 bits', z3.ULE(span(c)[1] - span(c)[0], B64(31))), ('not negative', c.a('value') >= 0)], modifies=lambda c: [c.a('from').loc],
        ensures=lambda c: encode_post(c, c.a('value'), *span(c)), **bv))
    reg.add(Contract(P_ + 'SetFromChromosome', iters=its, requires=lambda c: inv(c) + ordered(c) + [('the largest pattern is an int', sx(here(c).lo) + (B64(1) << here(c).size) - 1 <= B64(2**31 - 1))], throws=[('invalid_argument', bad_size)],
        modifies=lambda c: [c.floc('value_')], ensures=lambda c: [('bit i of the value is element i of the slice', decoded(c, after(c).value - here(c).lo, *span(c))), ('not below the range', after(c).value >= here(c).lo)], **bv))
    reg.add(Contract(P_ + 'GetIntFromChromosome', internal=True, iters=its, **by_size, requires=lambda c: ordered(c) + [('at most 31 bits', z3.ULE(span(c)[1] - span(c)[0], B64(31)))],
        ensures=lambda c: [('bit i of the result is element i of the slice', decoded(c, c.result, *span(c))), ('not negative', c.result >= 0)], **bv))
