"""Imports and contracts shared by the specifications of the properties."""
import z3
from engine.terms import *
from engine.exec import Loc, It, Ptr, Exc, Opaque, Unsupported, CxxThrow
from engine.contracts import Contract, CCtx, Registry
from engine.lib import *

I = z3.IntVal
R = z3.RealVal
EPS = R('1/10000000000')
FP = 'k52::common::FloatingPoint::'
VR, VC, VB, VVC = VEC(REAL), VEC(CX), VEC(BOOL), VEC(VEC(CX))

def imin(a, b): return z3.If(a <= b, a, b)
def imax(a, b): return z3.If(a >= b, a, b)

def add_floating_point(reg):
    reg.add(Contract(FP + 'AreEqual', sig='(double, double)', returns=lambda c: rabs(c.a(0) - c.a(1)) < EPS))
    reg.add(Contract(FP + 'AreEqual', sig='vector', returns=lambda c: z3.And(c.len(c.a(0)) == c.len(c.a(1)),
        forall_range(I(0), c.len(c.a(0)), lambda i: rabs(c.at(c.a(0), i) - c.at(c.a(1), i)) < EPS))))
    reg.add(Contract(FP + 'IsZero', returns=lambda c: rabs(c.a(0)) < EPS))

def cmul(a, b): return cx(cre(a) * cre(b) - cim(a) * cim(b), cre(a) * cim(b) + cim(a) * cre(b))
def conj(a): return cx(cre(a), -cim(a))
def mapvec(c, t, n, f): return c.ctx.mkvec(t, n, lam(z3.IntSort(), f))
def csum(f, lo, hi):
    """sum of complex terms"""
    return cx(Sum(lambda i: cre(f(i)), lo, hi), Sum(lambda i: cim(f(i)), lo, hi))

def add_conjugate(reg):
    reg.add(Contract('k52::common::Helpers::Conjugate', returns=lambda c: mapvec(c, VC, c.len(c.a(0), VC), lambda i: conj(c.at(c.a(0), i, VC)))))
def in_loop(info, *named):
    """loop invariants over the contract context of the verified function, the state in the loop being its post-state: (name, f(c, iterations))"""
    c0 = info.X.c0
    def make(f): return lambda v: f(CCtx(c0.X, c0.pre, v.st, c0.fn, c0.obj, c0.args), v.k)
    return [(n, make(f)) for n, f in named]
def in_loop_vec(info, t, field, *named):
    """loop invariants over a vector of type t, tried for every such local variable and for the field: f(c, iterations, vector)"""
    X = info.X; c0 = X.c0; out = []
    srt = X.ctx.sort(t)
    for cell, v in list(info.st.cells.items()):
        if cell[0] == 'L' and z3.is_expr(v) and v.sort() == srt:
            out += [(n + ' (local)', lambda v, f=f, cell=cell: f(CCtx(c0.X, c0.pre, v.st, c0.fn, c0.obj, c0.args), v.k, v.st.cells[cell])) for n, f in named]
    if field: out += [(n, lambda v, f=f: (lambda c: f(c, v.k, c.f_(field)))(CCtx(c0.X, c0.pre, v.st, c0.fn, c0.obj, c0.args))) for n, f in named]
    return out
def in_loop_local(info, sort, *named):
    """loop invariants tried for every local variable of a sort: f(c, iterations, value)"""
    c0 = info.X.c0; out = []
    for cell, v in list(info.st.cells.items()):
        if cell[0] == 'L' and z3.is_expr(v) and v.sort() == sort:
            out += [(n + ' (local)', lambda v, f=f, cell=cell: f(CCtx(c0.X, c0.pre, v.st, c0.fn, c0.obj, c0.args), v.k, v.st.cells[cell])) for n, f in named]
    return out
