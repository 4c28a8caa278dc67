"""BLAS level 2."""
from .lib import *


def gemv(c, beta, y, alpha, A, x, trans, ab):
    a = absr if ab else (lambda v: v)
    if trans:
        f = lambda i: c.sum(0, A.rows, lambda k: a(A(k, i)) * a(x(k)))
    else:
        f = lambda i: c.sum(0, A.cols, lambda k: a(A(i, k)) * a(x(k)))
    c.writev(y, lambda i: beta * y(i) + alpha * f(i))


def gemv_shape(c, y, A, x, trans):
    if trans:
        return c_and(c_eq(A.cols, y.n), c_eq(A.rows, x.n))
    return c_and(c_eq(A.rows, y.n), c_eq(A.cols, x.n))


# kernels of nosimd/mvec.h as compiled into gemv.c
for nn in (1, 2, 4):
    for ab in (False, True):
        def _axpy(c, nn=nn, ab=ab):
            a = absr if ab else (lambda v: v)
            cols = [c.a0, getattr(c, "a1", None), getattr(c, "a2", None), getattr(c, "a3", None)][:nn]
            c.requires(c_ge(c.nR, 0))
            c.write(c.y, lambda i, j: c.y(i, j) + c.alpha * sum((a(cols[q](j, 0)) * a(c.x(0, q)) for q in range(nn)), T.ZERO))

        def _dot(c, nn=nn, ab=ab):
            a = absr if ab else (lambda v: v)
            cols = [c.a0, getattr(c, "a1", None), getattr(c, "a2", None), getattr(c, "a3", None)][:nn]
            c.requires(c_ge(c.nR, 0))
            for q in range(nn):
                c.write(c.y, lambda i, j: c.y(i, j) + c.alpha * c.sum(0, c.nR, lambda k: a(cols[q](k, 0)) * a(c.x(0, k))),
                        lambda i, j: c_eq(j, q))
        ps = " ".join("a%d:ptr(nR)" % q for q in range(nn))
        sfx = "_abs" if ab else ""
        contract(":vmult%daxpy%s" % (nn, sfx), "blas/gemv.c",
                 "y:ptr(nR,inc=incy) incy:pos %s x:ptr(%d,inc=incx) incx:pos alpha:real nR:int" % (ps, nn), prop="C06")(_axpy)
        contract(":vmult%ddot%s" % (nn, sfx), "blas/gemv.c",
                 "y:ptr(%d,inc=incy) incy:pos %s x:ptr(nR,inc=incx) incx:pos alpha:real nR:int" % (nn, ps), prop="C06")(_dot)

for name in ("gemv_unb_abs", "gemv_unb", "gemv_recursive"):
    def _spec(c, name=name):
        trans = c.flag(c.flags, TRANS)
        c.requires(gemv_shape(c, c.Y, c.A, c.X, trans))
        if name == "gemv_recursive":
            c.decreases(c.A.rows + c.A.cols)
        gemv(c, T.ONE, c.Y, c.alpha, c.A, c.X, trans, name == "gemv_unb_abs" or c.flag(c.flags, ABS_))
    contract(":" + name, "blas/gemv.c", "Y:vec alpha:real A:mat X:vec flags:flags" + (" m:int" if name == "gemv_recursive" else ""), prop="C06")(_spec)


@contract("armas_mvmult_unsafe", "blas/gemv.c", "beta:real y:vec alpha:real A:mat x:vec flags:flags", prop="C06")
def _(c):
    trans = c.flag(c.flags, TRANS)
    c.requires(gemv_shape(c, c.y, c.A, c.x, trans))
    if c.decide(c_eq(c.A.size, 0)):
        return
    gemv(c, c.beta, c.y, c.alpha, c.A, c.x, trans, c.flag(c.flags, ABS_))


@contract("armas_mvmult", "blas/gemv.c", "beta:real y:mat alpha:real A:mat x:mat flags:flags conf:conf", prop="C06")
def _(c):
    y, A, x = c.y, c.A, c.x
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(x.size, 0), c_eq(y.size, 0))):
        return
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR)
    trans = c.flag(c.flags, TRANS)
    if not c.decide(gemv_shape(c, y, A, x, trans)):
        return fail(c, ESIZE)
    gemv(c, c.beta, y, c.alpha, A, x, trans, c.flag(c.flags, ABS_))


# ------------------------------------------------------------- rank updates
for nm, ncol in (("update4axpy", 4), ("update1axpy", 1)):
    def _spec(c, ncol=ncol):
        c.requires(c_eq(c.A.cols, ncol))
        c.requires(c_eq(c.A.rows, c.M))
        c.requires(c_eq(c.X.n, c.M))
        c.requires(c_eq(c.Y.n, ncol))
        c.write(c.A, lambda i, j: c.beta * c.A(i, j) + c.alpha * c.X(i) * c.Y(j))
    contract(":" + nm, "blas/ger.c", "beta:real A:mat alpha:real X:vec Y:vec M:nat", prop="C06")(_spec)


def ger(c, A, x, y, sel=None):
    c.write(A, lambda i, j: c.beta * A(i, j) + c.alpha * x(i) * y(j), sel)


def ger_shape(A, x, y):
    return c_and(c_eq(A.rows, x.n), c_eq(A.cols, y.n))


@contract("blas/ger.c:update_ger_unb", "blas/ger.c", "beta:real A:mat alpha:real X:vec Y:vec", prop="C06")
def _(c):
    c.requires(ger_shape(c.A, c.X, c.Y))
    ger(c, c.A, c.X, c.Y)


@contract("blas/ger.c:update_ger_recursive", "blas/ger.c", "beta:real A:mat alpha:real X:vec Y:vec m:int", prop="C06")
def _(c):
    c.requires(ger_shape(c.A, c.X, c.Y))
    c.decreases(c.A.rows + c.A.cols)
    ger(c, c.A, c.X, c.Y)


@contract("armas_mvupdate_unsafe", "blas/ger.c", "beta:real A:mat alpha:real X:vec Y:vec", prop="C06")
def _(c):
    c.requires(ger_shape(c.A, c.X, c.Y))
    ger(c, c.A, c.X, c.Y)


def upd_checks(c, A, x, y):
    """common argument checks of the rank updates; True when they pass"""
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(x.size, 0), c_eq(y.size, 0))):
        return False
    if not c.decide(c_and(x.isvec(), y.isvec())):
        fail(c, ENEED_VECTOR)
        return False
    return True


@contract("armas_mvupdate", "blas/ger.c", "beta:real A:mat alpha:real x:mat y:mat conf:conf", prop="C06")
def _(c):
    A, x, y = c.A, c.x, c.y
    if not upd_checks(c, A, x, y):
        return
    if not c.decide(ger_shape(A, x, y)):
        return fail(c, ESIZE)
    ger(c, A, x, y)


def upper_xor_lower(c, f):
    """upper? (LOWER is the default; both at once is not a shape)"""
    c.requires(not (c.flag(f, UPPER) and c.flag(f, LOWER)), "not both triangles")
    return c.flag(f, UPPER)


def trisel(upper):
    return (lambda i, j: c_le(i, j)) if upper else (lambda i, j: c_le(j, i))


for nm in ("update_trmv_unb", "update_trmv_recursive"):
    def _spec(c, nm=nm):
        c.requires(ger_shape(c.A, c.X, c.Y))
        if nm == "update_trmv_recursive":
            c.decreases(c.A.rows + c.A.cols)
        ger(c, c.A, c.X, c.Y, trisel(upper_xor_lower(c, c.flags)))
    contract(":" + nm, "blas/updtrmv.c", "beta:real A:mat alpha:real X:vec Y:vec flags:flags" + (" m:int" if nm == "update_trmv_recursive" else ""), prop="C06")(_spec)


@contract("armas_mvupdate_trm_unsafe", "blas/updtrmv.c", "beta:real A:mat alpha:real x:vec y:vec flags:flags", prop="C06")
def _(c):
    c.requires(ger_shape(c.A, c.x, c.y))
    ger(c, c.A, c.x, c.y, trisel(upper_xor_lower(c, c.flags)))


@contract("armas_mvupdate_trm", "blas/updtrmv.c", "beta:real A:mat alpha:real x:mat y:mat flags:flags conf:conf", prop="C06")
def _(c):
    A, x, y = c.A, c.x, c.y
    c.mayalias.add(("x", "y"))
    up = upper_xor_lower(c, c.flags)
    if not upd_checks(c, A, x, y):
        return
    if not c.decide(ger_shape(A, x, y)):
        return fail(c, ESIZE)
    ger(c, A, x, y, trisel(up))


@contract("armas_mvupdate_sym", "blas/syr.c", "beta:real A:mat alpha:real x:mat flags:flags conf:conf", prop="C06")
def _(c):
    A, x = c.A, c.x
    up = upper_xor_lower(c, c.flags)
    if not upd_checks(c, A, x, x):
        return
    if not c.decide(ger_shape(A, x, x)):
        return fail(c, ESIZE)
    ger(c, A, x, x, trisel(up))


def syr2(c, A, x, y, up):
    c.write(A, lambda i, j: c.beta * A(i, j) + c.alpha * (x(i) * y(j) + y(i) * x(j)), trisel(up))


for nm in ("update_syr2_unb", "update_syr2_recursive"):
    def _spec(c, nm=nm):
        c.requires(c_and(ger_shape(c.A, c.X, c.Y), c_eq(c.A.rows, c.A.cols)))
        if nm == "update_syr2_recursive":
            c.decreases(c.A.rows)
        syr2(c, c.A, c.X, c.Y, upper_xor_lower(c, c.flags))
    contract(":" + nm, "blas/syr2.c", "beta:real A:mat alpha:real X:vec Y:vec flags:flags" + (" m:int" if nm == "update_syr2_recursive" else ""), prop="C06")(_spec)


@contract("armas_mvupdate2_sym", "blas/syr2.c", "beta:real A:mat alpha:real x:mat y:mat flags:flags conf:conf", prop="C06")
def _(c):
    A, x, y = c.A, c.x, c.y
    up = upper_xor_lower(c, c.flags)
    if not upd_checks(c, A, x, y):
        return
    if not c.decide(c_and(ger_shape(A, x, y), c_eq(A.rows, A.cols))):
        return fail(c, ESIZE)
    syr2(c, A, x, y, up)


def named_triangle(c, f):
    """upper? (exactly one triangle is named, as the documentation asks)"""
    c.requires(c.flag(f, UPPER) != c.flag(f, LOWER), "one triangle is named")
    return c.flag(f, UPPER)


def symv(c, beta, y, A, x, up):
    n = A.rows
    if up:
        f = lambda i: c.sum(0, i, lambda k: A(k, i) * x(k)) + c.sum(i, n, lambda k: A(i, k) * x(k))
    else:
        f = lambda i: c.sum(0, i, lambda k: A(i, k) * x(k)) + c.sum(i, n, lambda k: A(k, i) * x(k))
    c.writev(y, lambda i: beta * y(i) + c.alpha * f(i))


def symv_shape(A, x, y):
    return c_and(c_eq(A.rows, A.cols), c_eq(A.rows, x.n), c_eq(A.rows, y.n))


for nm in ("symv_unb", "symv_recursive"):
    def _spec(c, nm=nm):
        c.requires(symv_shape(c.A, c.X, c.Y))
        if nm == "symv_recursive":
            c.decreases(c.A.rows)
        symv(c, T.ONE, c.Y, c.A, c.X, named_triangle(c, c.flags))
    contract(":" + nm, "blas/symv.c", "Y:vec alpha:real A:mat X:vec flags:flags" + (" m:int" if nm == "symv_recursive" else ""), prop="C06")(_spec)


@contract("armas_mvmult_sym_unsafe", "blas/symv.c", "beta:real y:vec alpha:real A:mat x:vec flags:flags", prop="C06")
def _(c):
    c.requires(symv_shape(c.A, c.x, c.y))
    symv(c, c.beta, c.y, c.A, c.x, named_triangle(c, c.flags))


@contract("armas_mvmult_sym", "blas/symv.c", "beta:real y:mat alpha:real A:mat x:mat flags:flags conf:conf", prop="C06")
def _(c):
    A, x, y = c.A, c.x, c.y
    up = named_triangle(c, c.flags)
    if not upd_checks(c, A, x, y):
        return
    if not c.decide(symv_shape(A, x, y)):
        return fail(c, ESIZE)
    symv(c, c.beta, y, A, x, up)
