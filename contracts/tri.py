"""Triangular matrix-vector multiply and solve."""
from .lib import *


def one_triangle(c, f):
    """exactly one triangle is named; is it the upper one?"""
    u, l = c.flag(f, UPPER), c.flag(f, LOWER)
    c.requires(u != l, "exactly one triangle is named")
    return u


def tri_row(c, A, x, i, upper, trans, unit):
    """(op(T) x)_i of the triangle of A"""
    u = 1 if unit else 0
    a = (lambda k: A(k, i)) if trans else (lambda k: A(i, k))
    if upper != trans:
        s = c.sum(i + u, A.cols, lambda k: a(k) * x(k))
    else:
        s = c.sum(0, i + (1 - u), lambda k: a(k) * x(k))
    return s + x(i) if unit else s


def trmv(c, x, A, alpha, upper, trans, unit):
    c.writev(x, lambda i: alpha * tri_row(c, A, x, i, upper, trans, unit))


def square(c, A, x):
    return c_and(c_eq(A.cols, x.n), c_eq(A.rows, A.cols))


for nm, upper, trans in (("trmv_lu", 1, 0), ("trmv_lut", 1, 1), ("trmv_ll", 0, 0), ("trmv_llt", 0, 1)):
    def _spec(c, upper=upper, trans=trans):
        c.requires(square(c, c.A, c.x))
        trmv(c, c.x, c.A, c.alpha, bool(upper), bool(trans), c.flag(c.flags, UNIT))
    contract(":" + nm, "blas/trmv.c", "x:vec alpha:real A:mat flags:flags", prop="C07")(_spec)

for nm in (":trmv_unb", ":trmv_forward_recursive", ":trmv_backward_recursive", "armas_mvmult_trm_unsafe"):
    def _spec(c, nm=nm):
        c.requires(square(c, c.A, c.X))
        upper, trans = one_triangle(c, c.flags), c.flag(c.flags, TRANS)
        if "forward" in nm:
            c.requires(upper != trans)
        if "backward" in nm:
            c.requires(upper == trans)
        if "recursive" in nm:
            c.decreases(c.A.cols)
        trmv(c, c.X, c.A, c.alpha, upper, trans, c.flag(c.flags, UNIT))
    contract(nm, "blas/trmv.c", "X:vec alpha:real A:mat flags:flags" + (" m:int" if "recursive" in nm else ""), prop="C07")(_spec)


@contract("armas_mvmult_trm", "blas/trmv.c", "x:mat alpha:real A:mat flags:flags conf:conf", prop="C07")
def _(c):
    A, x = c.A, c.x
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(x.size, 0))):
        return
    if not c.decide(x.isvec()):
        return fail(c, ENEED_VECTOR)
    if not c.decide(square(c, A, x)):
        return fail(c, ESIZE)
    upper, trans = one_triangle(c, c.flags), c.flag(c.flags, TRANS)
    trmv(c, x, A, c.alpha, upper, trans, c.flag(c.flags, UNIT))


def trsv(c, x, A, alpha, upper, trans, unit):
    """x ends with the y for which op(T) y = alpha x"""
    y = c.ghost(x)
    if not unit:
        c.nonzero(A.cols, lambda i: A(i, i), "the diagonal of A")
    c.givenv(x, lambda i: tri_row(c, A, y, i, upper, trans, unit), alpha)
    c.writev(x, lambda i: y(i))


for nm, upper, trans in (("trsv_lu", 1, 0), ("trsv_lut", 1, 1), ("trsv_ll", 0, 0), ("trsv_llt", 0, 1)):
    def _spec(c, upper=upper, trans=trans):
        c.requires(c_and(square(c, c.A, c.x), c_ge(c.A.cols, 1)))
        trsv(c, c.x, c.A, c.alpha, bool(upper), bool(trans), c.flag(c.flags, UNIT))
    contract(":" + nm, "blas/trsv.c", "x:vec alpha:real A:mat flags:flags", prop="C07")(_spec)

for nm in (":trsv_unb", ":trsv_forward_recursive", ":trsv_backward_recursive", "armas_mvsolve_trm_unsafe"):
    def _spec(c, nm=nm):
        c.requires(c_and(square(c, c.A, c.X), c_ge(c.A.cols, 1)))
        upper, trans = one_triangle(c, c.flags), c.flag(c.flags, TRANS)
        if "forward" in nm:
            c.requires(upper == trans)
        if "backward" in nm:
            c.requires(upper != trans)
        if "recursive" in nm:
            c.decreases(c.A.cols)
        trsv(c, c.X, c.A, c.alpha, upper, trans, c.flag(c.flags, UNIT))
    contract(nm, "blas/trsv.c", "X:vec alpha:real A:mat flags:flags" + (" m:int" if "recursive" in nm else ""), prop="C07")(_spec)


@contract("armas_mvsolve_trm", "blas/trsv.c", "x:mat alpha:real A:mat flags:flags conf:conf", prop="C07")
def _(c):
    A, x = c.A, c.x
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(x.size, 0))):
        return
    if not c.decide(x.isvec()):
        return fail(c, ENEED_VECTOR)
    if not c.decide(square(c, A, x)):
        return fail(c, ESIZE)
    upper, trans = one_triangle(c, c.flags), c.flag(c.flags, TRANS)
    trsv(c, x, A, c.alpha, upper, trans, c.flag(c.flags, UNIT))
