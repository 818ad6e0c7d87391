from .base import *
from .C15 import dft, dft_vec
from engine.exec import Loc
FILES = ['src/dsp/transform/fast_fourier_transform.cpp']
F = 'k52::dsp::FastFourierTransform::'
IM, IC = F + 'FastFourierTransformImpl', 'FastFourierTransformImpl'
BUF, PLAN = 'fftw_complex[]', 'fftw_plan_s'
ASSUMPTIONS = ['FFTW: fftw_malloc gives a new buffer of the asked size, planning may write to both buffers, executing a forward out-of-place plan stores the discrete Fourier transform of the input buffer in the output buffer and keeps the input',
               'sizes below 2^31 (the planner takes an int)', 'memory allocation succeeds']
def mutex_loc(X): return Loc(('G', IM + '::fftw_mutex_'), (), X.prog.ptype('boost::mutex'))
def locked(X, st):
    m = mutex_loc(X); return X.read(st, m.sub(('f', 'locked', m.t), BOOL))
def gf(X, st, cls, ref, name): return X.field(st, Loc(('O', ref), (), T('rec', cls)), name)
def rd(X, st, cls, ref, name): return X.read(st, gf(X, st, cls, ref, name))
def malloc(X, st, n, args):
    b = X.rv(st, args[0]); r = X.alloc_obj(st, BUF)
    X.ob(st, 'asks for at least one element', b >= 16, 'safety', n)
    v = X.ctx.fresh('buf', VC); st.assume(X.ctx.vlen(VC, v) == b / 16)
    X.write(st, gf(X, st, BUF, r, '$data'), v); X.write(st, gf(X, st, BUF, r, '$live'), z3.BoolVal(True))
    return r
def live(X, st, b): return z3.And(b != 0, rd(X, st, BUF, b, '$live'))
def free(X, st, n, args):
    b = X.rv(st, args[0])
    X.ob(st, 'releases a buffer that has not been released', live(X, st, b), 'safety', n)
    X.write(st, gf(X, st, BUF, b, '$live'), z3.BoolVal(False))
def plan(X, st, n, args):
    N, i, o, sign, flags = [X.rv(st, a) for a in args]
    X.ob(st, 'the planner is called under the lock', locked(X, st), 'lock', n)
    ln = lambda b: X.ctx.vlen(VC, rd(X, st, BUF, b, '$data'))
    X.ob(st, 'the planner gets buffers of the planned size', z3.And(N >= 1, live(X, st, i), live(X, st, o), ln(i) >= N, ln(o) >= N), 'safety', n)
    r = X.alloc_obj(st, PLAN)
    for b in (i, o):
        old = ln(b); v = X.ctx.fresh('buf', VC); st.assume(X.ctx.vlen(VC, v) == old); X.write(st, gf(X, st, BUF, b, '$data'), v)
    for nm, v in (('$n', N), ('$in', i), ('$out', o), ('$sign', sign), ('$live', z3.BoolVal(True))): X.write(st, gf(X, st, PLAN, r, nm), v)
    return r
def plan_live(X, st, p): return z3.And(p != 0, rd(X, st, PLAN, p, '$live'))
def destroy(X, st, n, args):
    p = X.rv(st, args[0])
    X.ob(st, 'the planner is called under the lock', locked(X, st), 'lock', n)
    X.ob(st, 'destroys a plan that has not been destroyed', plan_live(X, st, p), 'safety', n)
    X.write(st, gf(X, st, PLAN, p, '$live'), z3.BoolVal(False))
def execute(X, st, n, args):
    p = X.rv(st, args[0]); g = lambda nm: rd(X, st, PLAN, p, nm)
    X.ob(st, 'executes a live plan', plan_live(X, st, p), 'safety', n)
    i, o, N = g('$in'), g('$out'), g('$n')
    X.ob(st, 'the plan is a forward out-of-place one over live buffers', z3.And(g('$sign') == -1, i != o, live(X, st, i), live(X, st, o)), 'safety', n)
    src = rd(X, st, BUF, i, '$data'); dst = rd(X, st, BUF, o, '$data')
    d = dft(lambda k: X.ctx.vget(VC, src, k), N)
    a = X.ctx.varr(VC, dst)
    X.write(st, gf(X, st, BUF, o, '$data'), X.ctx.mkvec(VC, X.ctx.vlen(VC, dst), lam(z3.IntSort(), lambda k: X.ite(k < N, d(k), sel(a, k)))))
def valid(c, st, ref):
    """the object invariant of an implementation object"""
    X = c.X; f = lambda nm: X.read(st, X.field(st, Loc(('O', ref), (), T('rec', IC)), nm))
    n, i, o, p = f('sequence_size_'), f('in_'), f('out_'), f('plan_')
    g = lambda nm: rd(X, st, PLAN, p, nm); ln = lambda b: X.ctx.vlen(VC, rd(X, st, BUF, b, '$data'))
    return z3.And(n >= 1, n < 2**31, i != o, live(X, st, i), live(X, st, o), i <= st.alloc, o <= st.alloc, p <= st.alloc, ln(i) == n, ln(o) == n, plan_live(X, st, p), g('$n') == n, g('$in') == i, g('$out') == o, g('$sign') == -1)
def free_lock(c, post=False): return ('the lock is free', z3.Not(locked(c.X, c.post if post else c.pre)))
def buffers(c, ref):
    f = lambda nm: c.of(ref, IC, nm)
    return [('H', BUF, '$data', f('in_')), ('H', BUF, '$data', f('out_'))]
def resources(c, ref):
    f = lambda nm: c.of(ref, IC, nm)
    return [('H', BUF, '$live', f('in_')), ('H', BUF, '$live', f('out_')), ('H', PLAN, '$live', f('plan_'))]
def fresh_resources(c, ref):
    f = lambda nm: c.of_(ref, IC, nm)
    return ('buffers and plan are its own', z3.And(*[f(nm) > c.pre.alloc for nm in ('in_', 'out_', 'plan_')]))
def released(c, ref):
    f = lambda nm: c.of(ref, IC, nm); X = c.X
    return ('both buffers and the plan are released', z3.And(z3.Not(rd(X, c.post, BUF, f('in_'), '$live')), z3.Not(rd(X, c.post, BUF, f('out_'), '$live')), z3.Not(rd(X, c.post, PLAN, f('plan_'), '$live'))))
def build(reg, P):
    reg.ghost_fields.update({(BUF, '$data'): VC, (BUF, '$live'): BOOL, (PLAN, '$n'): I32, (PLAN, '$in'): I64, (PLAN, '$out'): I64, (PLAN, '$sign'): I32, (PLAN, '$live'): BOOL})
    reg.extern.update(fftw_malloc=malloc, fftw_free=free, fftw_plan_dft_1d=plan, fftw_destroy_plan=destroy, fftw_execute=execute)
    small = lambda c: [('the planner takes sizes below 2^31', c.a(0) < 2**31)]
    zero = [('invalid_argument', lambda c: c.a(0) <= 0)]
    other = lambda size: [('invalid_argument', lambda c: c.len(c.a(0), VC) != size(c))]
    reg.add(Contract(IM + '::FastFourierTransformImpl', nparams=1, sig='(size_t)', allocates=True, requires=lambda c: small(c) + [free_lock(c)], modifies=lambda c: [c.obj], throws=zero,
        ensures=lambda c: [('is ready for the given size', z3.And(valid(c, c.post, c.this), c.f_('sequence_size_') == c.a(0))), fresh_resources(c, c.this), free_lock(c, True)], throw_ensures=lambda c: [free_lock(c, True)]))
    reg.add(Contract(IM + '::~FastFourierTransformImpl', requires=lambda c: [free_lock(c), ('is ready', valid(c, c.pre, c.this))], modifies=lambda c: resources(c, c.this),
        ensures=lambda c: [released(c, c.this), free_lock(c, True)]))
    reg.add(Contract(IM + '::Transform', requires=lambda c: [('is ready', valid(c, c.pre, c.this))], modifies=lambda c: buffers(c, c.this), throws=other(lambda c: c.f('sequence_size_')),
        returns=lambda c: dft_vec(c, c.a(0)), ensures=lambda c: [('stays ready', valid(c, c.post, c.this))]))
    impl = lambda c: c.f('fast_fourier_transform_impl_')
    owns = lambda c: [('has its implementation', z3.And(impl(c) > 0, impl(c) <= c.pre.alloc, valid(c, c.pre, impl(c))))]
    reg.add(Contract(F + 'FastFourierTransform', nparams=1, sig='(size_t)', allocates=True, requires=lambda c: small(c) + [free_lock(c)], modifies=lambda c: [c.obj], throws=zero,
        ensures=lambda c: [('is ready for the given size', z3.And(c.f_('fast_fourier_transform_impl_') > c.pre.alloc, valid(c, c.post, c.f_('fast_fourier_transform_impl_')), c.of_(c.f_('fast_fourier_transform_impl_'), IC, 'sequence_size_') == c.a(0))),
            fresh_resources(c, c.f_('fast_fourier_transform_impl_')), free_lock(c, True)]))
    reg.add(Contract(F + '~FastFourierTransform', requires=lambda c: owns(c) + [free_lock(c)], modifies=lambda c: resources(c, impl(c)), ensures=lambda c: [released(c, impl(c)), free_lock(c, True)]))
    reg.add(Contract(F + 'Transform', requires=owns, modifies=lambda c: buffers(c, impl(c)), throws=other(lambda c: c.of(impl(c), IC, 'sequence_size_')), returns=lambda c: dft_vec(c, c.a(0)),
        ensures=lambda c: [('stays ready', valid(c, c.post, impl(c)))]))
