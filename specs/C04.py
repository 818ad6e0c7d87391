from .base import *
from .C03 import *
from .C03 import codes, IP, DP, K, O, DPrm, IPrm, same_shape, p2, strictly
FILES = ['src/optimization/params/composite_discrete_parameters.cpp', 'src/optimization/params/double_parameters_array.cpp', 'src/optimization/initialization_checker.cpp', 'src/optimization/params/const_chromosome_size_paremeters.cpp']
C_ = O + 'CompositeDiscreteParameters::'; A_ = O + 'DoubleParametersArray::'; DC = 'IDiscreteParameters'; CP = 'CompositeDiscreteParameters'; DA = 'DoubleParametersArray'
ASSUMPTIONS = ['a part of a composite has a fixed size, encodes and decodes its content into a slice of that size, keeps it when decoding what it encodes to, and clones into an independent part of the same content and size (C02 and C03 prove this of the parameters of the library)', 'fewer than 2^59 genes',
               'the values of an array are inside the interval when it is encoded']
gene = z3.Function('gene', z3.IntSort(), z3.IntSort(), z3.BoolSort()); okf = z3.Function('meets_constraints', z3.IntSort(), z3.BoolSort())
BIG = 2**59
VP = VEC(REF(DC))
def psize(c, r, post=False): return (c.of_ if post else c.of)(r, DC, '$size')
def content(c, r, post=False): return (c.of_ if post else c.of)(r, 'IParameters', '$content')
def slice_is(c, arr, f, n, x): return forall_range(f, f + n, lambda p: c.at(arr, p, VB) == gene(x, p - f))
def add_parts(reg):
    reg.ghost_fields[('IParameters', '$content')] = I64; reg.ghost_fields[(DC, '$size')] = I64
    reg.add(Contract(O + 'IParameters::CheckConstraints', assumed=True, returns=lambda c: okf(content(c, c.this))))
    reg.add(Contract(O + 'IConvertableToChromosome::GetChromosomeSize', assumed=True, returns=lambda c: psize(c, c.this), ensures=lambda c: [('not negative', psize(c, c.this) >= 0)]))
    wrong = [('invalid_argument', lambda c: span(c)[1] - span(c)[0] != psize(c, c.this))]
    reg.add(Contract(O + 'IConvertableToChromosome::SetChromosome', assumed=True, iters=its, requires=ordered, throws=wrong, modifies=lambda c: [c.arg(0).loc],
        ensures=lambda c: [('the genes of the content', slice_is(c, chrom(c, c.post), span(c)[0], psize(c, c.this), content(c, c.this)))] + only_slice(c)))
    reg.add(Contract(O + 'IConvertableToChromosome::SetFromChromosome', assumed=True, iters=its, requires=ordered, throws=wrong, modifies=lambda c: [('H', 'IParameters', '$content', c.this)],
        ensures=lambda c: [('a content with the genes of the slice', slice_is(c, chrom(c, c.pre), span(c)[0], psize(c, c.this), content(c, c.this, True))),
            ('decoding what it encodes to leaves the content unchanged', z3.Implies(slice_is(c, chrom(c, c.pre), span(c)[0], psize(c, c.this), content(c, c.this)), content(c, c.this, True) == content(c, c.this)))]))
    reg.add(Contract(O + DC + '::Clone', assumed=True, allocates=True, ensures=lambda c: [('a new part of the same content and size', z3.And(c.result > c.pre.alloc, content(c, c.result, True) == content(c, c.this), psize(c, c.result, True) == psize(c, c.this)))]))
class Comp:
    """a composite: f reads a field of it, c of a part"""
    def __init__(s, c, post=False, r=None):
        s.c, s.post = c, post; g = c.of_ if post else c.of; r = c.this if r is None else r
        s.parts, s.set, s.size = g(r, CP, 'parameters_set_'), g(r, K, 'was_chromosome_size_set_'), g(r, K, 'chromosome_size_')
        ck = c.X.field(c.post if post else c.pre, c.objloc(r, CP), 'initialization_checker_')
        s.ready = c.X.read(c.post if post else c.pre, ck.sub(('f', 'was_initialized_', ck.t), BOOL))
        s.n = c.len(s.parts, VP)
    def part(s, i): return s.c.at(s.parts, i, VP)
    def psize(s, i): return psize(s.c, s.part(i), s.post)
    def off(s, i): return Sum(s.psize, I(0), i)
    def content(s, i, post=None): return content(s.c, s.part(i), s.post if post is None else post)
    def when(s, f): return z3.Implies(s.ready, f)
    def ready_range(s, f):
        """for every part of an initialised composite"""
        i = fresh('i', z3.IntSort()); return z3.ForAll([i], z3.Implies(z3.And(s.ready, 0 <= i, i < s.n), f(i)))
    def inv(s):
        i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
        return [('initialised exactly when its size is declared', s.ready == s.set), ('its size is the sum of the sizes of its parts', z3.Implies(s.ready, z3.And(s.size == s.off(s.n), s.size >= 0, s.size <= BIG))),
            ('parts laid out one after the other', s.ready_range(lambda i: z3.And(s.psize(i) >= 0, s.off(i) >= 0, s.off(i) + s.psize(i) <= s.size))),
            ('parts given', s.ready_range(lambda i: s.part(i) > 0)), ('separate parts', z3.ForAll([i, j], z3.Implies(z3.And(s.ready, 0 <= i, i < j, j < s.n), s.part(i) < s.part(j))))]
def cinv(c): return Comp(c).inv()
not_ready = ('logic_error', lambda c: z3.Not(Comp(c).ready))
def build_composite(reg):
    IC = O + 'InitializationChecker::'
    reg.add(Contract(IC + 'InitializationChecker', nparams=0, modifies=lambda c: [c.floc('was_initialized_')], ensures=lambda c: [('not initialised', z3.Not(c.f_('was_initialized_')))]))
    reg.add(Contract(IC + 'InitializationCheck', throws=[('logic_error', lambda c: z3.Not(c.f('was_initialized_')))]))
    reg.add(Contract(IC + 'SetInitialized', modifies=lambda c: [c.floc('was_initialized_')], throws=[('logic_error', lambda c: c.f('was_initialized_'))], ensures=lambda c: [('initialised', c.f_('was_initialized_'))]))
    wrong = ('invalid_argument', lambda c: span(c)[1] - span(c)[0] != Comp(c).size)
    reg.add(Contract(C_ + 'CountTotalChromosomeSize', internal=True, requires=lambda c: [('fewer than 2^59 genes', z3.And(Comp(c).off(Comp(c).n) <= BIG, forall_range(I(0), Comp(c).n, lambda i: z3.And(Comp(c).off(i) >= 0, Comp(c).off(i) + Comp(c).psize(i) <= BIG)))), ('parts given', forall_range(I(0), Comp(c).n, lambda i: z3.And(Comp(c).part(i) > 0, Comp(c).psize(i) >= 0)))],
        returns=lambda c: Comp(c).off(Comp(c).n)))
    reg.add(Contract(C_ + 'GetNumberOfParameters', requires=cinv, throws=[not_ready], returns=lambda c: Comp(c).n))
    reg.add(Contract(C_ + 'GetParameter', requires=cinv, throws=[not_ready, ('out_of_range', lambda c: c.a(0) >= Comp(c).n)], returns=lambda c: Comp(c).part(c.a(0))))
    reg.add(Contract(C_ + 'CheckConstraints', requires=cinv, throws=[not_ready], returns=lambda c: forall_range(I(0), Comp(c).n, lambda i: okf(Comp(c).content(i)))))
    def ordered_so_far(c, k): return forall_range(I(0), k, lambda j: z3.And(Comp(c).off(j) + Comp(c).psize(j) <= Comp(c).off(k)))
    def encoded(c, k): return forall_range(I(0), k, lambda j: slice_is(c, chrom(c, c.post), span(c)[0] + Comp(c).off(j), Comp(c).psize(j), Comp(c).content(j)))
    def rest(c, k):
        f, t = span(c); new, old = chrom(c, c.post), chrom(c, c.pre)
        return forall_range(I(0), c.len(old, VB), lambda i: z3.Implies(z3.Or(i < f, i >= f + Comp(c).off(k)), c.at(new, i, VB) == c.at(old, i, VB)))
    encoding = lambda info: in_loop(info, ('the slices so far are in order', ordered_so_far), ('the parts so far are encoded', encoded), ('nothing else is', rest))
    reg.add(Contract(C_ + 'SetChromosome', iters=its, requires=lambda c: cinv(c) + ordered(c), throws=[not_ready, wrong], modifies=lambda c: [c.arg(0).loc], loops=[encoding],
        ensures=lambda c: [('every part encodes into its own slice', forall_range(I(0), Comp(c).n, lambda i: slice_is(c, chrom(c, c.post), span(c)[0] + Comp(c).off(i), Comp(c).psize(i), Comp(c).content(i))))] + only_slice(c)))
    # decoding
    others = lambda c, post: z3.ForAll([post], post) 
    def content_at(c, r): return content(c, r, True)
    def decoded_part(c, j):
        p = Comp(c); f = span(c)[0] + p.off(j); old = chrom(c, c.pre)
        return z3.And(slice_is(c, old, f, p.psize(j), content_at(c, p.part(j))), z3.Implies(slice_is(c, old, f, p.psize(j), p.content(j)), content_at(c, p.part(j)) == p.content(j)))
    def decoded(c, k): return forall_range(I(0), k, lambda j: decoded_part(c, j))
    def later(c, k): return forall_range(k, Comp(c).n, lambda j: content_at(c, Comp(c).part(j)) == Comp(c).content(j))
    def strangers(c, k):
        r = fresh('r', z3.IntSort()); p = Comp(c)
        return z3.ForAll([r], z3.Implies(forall_range(I(0), p.n, lambda j: p.part(j) != r), content_at(c, r) == content(c, r)))
    decoding = lambda info: in_loop(info, ('the slices so far are in order', ordered_so_far), ('the parts so far are decoded', decoded), ('the later parts are as before', later), ('other objects are as before', strangers))
    reg.add(Contract(C_ + 'SetFromChromosome', iters=its, requires=lambda c: cinv(c) + ordered(c), throws=[not_ready, wrong], modifies=lambda c: [('H', 'IParameters', '$content')], loops=[decoding],
        ensures=lambda c: [('every part decodes its own slice and keeps its content when that is what it encodes to', decoded(c, Comp(c).n)), ('other objects are as before', strangers(c, None))]))
    # initialisation
    def new_parts(c, k, src, v=None):
        """v: the vector of the new parts; src: the part a new part copies"""
        q = Comp(c, True); vp = c.post.alloc
        part = q.part if v is None else lambda i: c.at(v, i, VP)
        i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
        return [('new parts', forall_range(I(0), k, lambda i: z3.And(part(i) > c.pre.alloc, part(i) <= vp))), ('one object per part', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), part(i) < part(j)))),
                ('copies of content and size', forall_range(I(0), k, lambda i: z3.And(content(c, part(i), True) == content(c, src(i)), psize(c, part(i), True) == psize(c, src(i)))))]
    def filling(src):
        def f(info):
            if not info.qual.endswith('::Initialize'): return []
            names = [n for n, _ in new_parts(info.X.c0, I(0), lambda i: src(info.X.c0, i))]
            return in_loop_vec(info, VP, 'parameters_set_', *[(n, lambda c, k, v, m=m: new_parts(c, k, lambda i: src(c, i), v)[m][1]) for m, n in enumerate(names)])
        return f
    mods = lambda c: [c.floc('parameters_set_'), c.X.field(c.pre, c.obj, 'initialization_checker_'), c.floc('was_chromosome_size_set_'), c.floc('chromosome_size_')]
    twice = [('logic_error', lambda c: Comp(c).ready)]
    total = lambda f, n: [('fewer than 2^59 genes', z3.And(Sum(f, I(0), n) <= BIG, forall_range(I(0), n, lambda i: z3.And(f(i) >= 0, Sum(f, I(0), i) >= 0, Sum(f, I(0), i) + f(i) <= Sum(f, I(0), n)))))]
    src1 = lambda c, i: c.at(c.a(0), i, VP); src2 = lambda c, i: c.a(0)
    reg.add(Contract(C_ + 'Initialize', nparams=1, allocates=True, modifies=mods, loops=[filling(src1)], throws=twice,
        requires=lambda c: cinv(c) + total(lambda i: psize(c, src1(c, i)), c.len(c.a(0), VP)) + [('parts given', forall_range(I(0), c.len(c.a(0), VP), lambda i: src1(c, i) > 0))],
        ensures=lambda c: [('initialised', Comp(c, True).ready), ('a part for every part', Comp(c, True).n == c.len(c.a(0), VP))] + new_parts(c, Comp(c, True).n, lambda i: src1(c, i)) + Comp(c, True).inv()))
    reg.add(Contract(C_ + 'Initialize', nparams=2, allocates=True, modifies=mods, loops=[filling(src2)], throws=twice,
        requires=lambda c: cinv(c) + total(lambda i: psize(c, c.a(0)), c.a(1)) + [('a sample given', c.a(0) > 0), ('fewer than 2^59 parts', c.a(1) < BIG)],
        ensures=lambda c: [('initialised', Comp(c, True).ready), ('as many parts as asked', Comp(c, True).n == c.a(1))] + new_parts(c, c.a(1), lambda i: src2(c, i)) + Comp(c, True).inv()))
    def cloned(c):
        p, q = Comp(c), Comp(c, True, c.result)
        i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
        return [('a new composite with as many parts', z3.And(c.result > c.pre.alloc, q.n == p.n)), ('new parts', forall_range(I(0), p.n, lambda i: q.part(i) > c.pre.alloc)),
                ('copies of content and size', forall_range(I(0), p.n, lambda i: z3.And(q.content(i) == p.content(i), q.psize(i) == p.psize(i))))] + q.inv()
    reg.add(Contract(C_ + 'Clone', requires=cinv, throws=[not_ready], allocates=True, ensures=cloned))
    reg.add(Contract(C_ + 'HasSameMetaParameters', throws=[('runtime_error', lambda c: z3.BoolVal(True))]))
class Arr:
    """an array of real parameters"""
    def __init__(s, c, post=False, r=None):
        s.c = c; s.alloc = (c.post if post else c.pre).alloc; g = c.of_ if post else c.of; r = c.this if r is None else r
        s.sample, s.values, s.set, s.size = g(r, DA, 'sample_parameter_'), g(r, DA, 'values_'), g(r, K, 'was_chromosome_size_set_'), g(r, K, 'chromosome_size_')
        s.p = DPrm(s.sample, g); s.n = c.len(s.values)
    def at(s, i): return s.c.at(s.values, i)
    def off(s, j): return j * s.p.size
    def inv(s): return [('a sample parameter', z3.And(s.sample > 0, s.sample <= s.alloc, s.p.base <= s.alloc))] + s.p.inv() + [('its size is the sum of the sizes of its parameters', z3.And(s.set, s.size == s.n * s.p.size, s.size <= BIG, s.n <= 2**54))]
    def inside(s): return forall_range(I(0), s.n, lambda i: s.p.inside(s.at(i)))
def ainv(c): return Arr(c).inv()
def build_array(reg):
    bad_interval = lambda c: z3.Or(c.a(1) <= c.a(0), (c.a(1) - c.a(0)) / c.a(2) <= 0)
    reg.add(Contract(A_ + DA, nparams=4, allocates=True, modifies=lambda c: [c.obj], throws=[('invalid_argument', bad_interval)],
        requires=lambda c: [('a requested step, and fewer than 2^30 steps', z3.Or(c.a(1) <= c.a(0), z3.And(c.a(2) != 0, (c.a(1) - c.a(0)) / c.a(2) <= MAXM, (c.a(1) - c.a(0)) / c.a(2) >= -MAXM))), ('fewer than 2^54 parameters', c.a(3) <= 2**54)],
        ensures=lambda c: Arr(c, True).inv() + [('keeps interval and number', z3.And(Arr(c, True).p.lo == c.a(0), Arr(c, True).p.hi == c.a(1), Arr(c, True).n == c.a(3))), ('steps no larger than asked', Arr(c, True).p.step <= c.a(2))]))
    reg.add(Contract(A_ + 'CountTotalChromosomeSize', internal=True, requires=lambda c: [('a sample parameter', Arr(c).sample > 0), ('few genes', z3.And(Arr(c).p.set, Arr(c).p.size >= 0, Arr(c).p.size <= 31, Arr(c).n <= 2**54))], returns=lambda c: Arr(c).n * Arr(c).p.size))
    for n, f in (('get_max_value', 'hi'), ('get_min_value', 'lo'), ('get_actual_precision', 'step')): reg.add(Contract(A_ + n, requires=lambda c: [('a sample parameter', Arr(c).sample > 0)], returns=lambda c, f=f: getattr(Arr(c).p, f)))
    reg.add(Contract(A_ + 'get_number_of_parameters', returns=lambda c: Arr(c).n))
    reg.add(Contract(A_ + 'get_values', returns=lambda c: Arr(c).values))
    reg.add(Contract(A_ + 'CheckConstraints', requires=lambda c: [('a sample parameter', Arr(c).sample > 0)], returns=lambda c: Arr(c).inside()))
    inside = lambda c: forall_range(I(0), c.len(c.a(0)), lambda i: Arr(c).p.inside(c.at(c.a(0), i)))
    reg.add(Contract(A_ + 'SetValues', requires=lambda c: [('a sample parameter', Arr(c).sample > 0)], modifies=lambda c: [c.floc('values_')], throws=[('invalid_argument', lambda c: z3.Or(c.len(c.a(0)) != Arr(c).n, z3.Not(inside(c))))],
        ensures=lambda c: [('stores exactly the values', c.eq(VR, Arr(c, True).values, c.a(0)))]))
    wrong = [('invalid_argument', lambda c: span(c)[1] - span(c)[0] != Arr(c).size)]
    def slice_(c, j): a = Arr(c); f = span(c)[0] + a.off(j); return f, f + a.p.size
    def encoded(c, k):
        j, g, p = fresh('j', z3.IntSort()), fresh('g', z3.IntSort()), fresh('p', z3.IntSort()); a = Arr(c); f, t = slice_(c, j)
        return z3.ForAll([j, g, p], z3.Implies(z3.And(0 <= j, j < k, strictly(a.p, a.at(j), g), f <= p, p < t), c.at(chrom(c, c.post), p, VB) == bitof(g, p - f)))
    def in_order(c, k): return forall_range(I(0), k, lambda j: z3.And(Arr(c).off(j) + Arr(c).p.size <= Arr(c).off(k)))
    def rest(c, k):
        f, t = span(c); new, old = chrom(c, c.post), chrom(c, c.pre)
        return forall_range(I(0), c.len(old, VB), lambda i: z3.Implies(z3.Or(i < f, i >= f + Arr(c).off(k)), c.at(new, i, VB) == c.at(old, i, VB)))
    encoding = lambda info: in_loop(info, ('the slices so far are in order', in_order), ('the values so far are encoded', encoded), ('nothing else is', rest), ('the sample stays in order', lambda c, k: Arr(c, True).p.i.inside()))
    reg.add(Contract(A_ + 'SetChromosome', iters=its, requires=lambda c: ainv(c) + ordered(c) + [('the values are inside the interval', Arr(c).inside())], throws=wrong, modifies=lambda c: [c.arg(0).loc, ('H', IP, 'value_', Arr(c).p.base)], loops=[encoding],
        ensures=lambda c: [('every value encodes as its step into its own slice', encoded(c, Arr(c).n))] + only_slice(c)))
    def decoded(c, k):
        """every value is a step, and the step its slice encodes"""
        a, b = Arr(c), Arr(c, True); j, g = fresh('j', z3.IntSort()), fresh('g', z3.IntSort()); old = chrom(c, c.pre)
        return z3.And(forall_range(I(0), k, lambda j: z3.And(b.p.inside(b.at(j)))),
            z3.ForAll([j, g], z3.Implies(z3.And(0 <= j, j < k, codes(c.arr(old, VB), *slice_(c, j), g)), b.at(j) == a.p.lo + z3.ToReal(g) * a.p.step)))
    def untouched(c, k): return z3.And(c.len(Arr(c, True).values) == Arr(c).n)
    decoding = lambda info: in_loop(info, ('the slices so far are in order', in_order), ('the values so far are decoded', decoded), ('as many values as before', untouched), ('the sample stays in order', lambda c, k: Arr(c, True).p.i.inside()))
    reg.add(Contract(A_ + 'SetFromChromosome', iters=its, requires=lambda c: ainv(c) + ordered(c), throws=wrong, modifies=lambda c: [c.floc('values_'), ('H', IP, 'value_', Arr(c).p.base)], loops=[decoding],
        ensures=lambda c: [('as many values as before', c.len(Arr(c, True).values) == Arr(c).n), ('every value is the step that its own slice encodes, inside the interval', decoded(c, Arr(c).n))]))
    def clone(c):
        a, b = Arr(c), Arr(c, True, c.result)
        return [('a new array with a sample of its own', z3.And(c.result > c.pre.alloc, b.sample > c.pre.alloc, b.p.base > c.pre.alloc)), ('the same values', c.eq(VR, b.values, a.values)), ('the same interval, steps and size', z3.And(same_shape(a.p, b.p), b.p.i.value == a.p.i.value, b.size == a.size, b.set))]
    reg.add(Contract(A_ + 'Clone', requires=ainv, allocates=True, ensures=clone))
    reg.add(Contract(A_ + 'HasSameMetaParameters', throws=[('runtime_error', lambda c: z3.Or(c.a(0) == 0, z3.Not(c.X.isinst(c.a(0), DA))))], requires=lambda c: ainv(c) + [('the other array is in order', z3.Implies(c.a(0) != 0, z3.And(*[f for _, f in Arr(c, False, c.a(0)).inv()], c.X.isinst(Arr(c, False, c.a(0)).sample, DP), c.X.isinst(Arr(c, False, c.a(0)).p.base, IP))))],
        returns=lambda c: (lambda a, b: z3.And(a.n == b.n, *[getattr(a.p, n) == getattr(b.p, n) for n in ('lo', 'hi', 'step', 'M')]))(Arr(c), Arr(c, False, c.a(0)))))
def build(reg, P):
    add_sizes(reg); add_parts(reg); add_double(reg, True); build_composite(reg); build_array(reg)
