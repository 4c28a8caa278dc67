"""Element-wise matrix operations."""
from .lib import *


def tri(c, upper, unit):
    """selector of a triangular/trapezoidal part"""
    if upper:
        return (lambda i, j: c_lt(i, j)) if unit else (lambda i, j: c_le(i, j))
    return (lambda i, j: c_lt(j, i)) if unit else (lambda i, j: c_le(j, i))


@contract("armas_mscale", "blas/mscale.c", "m:mat alpha:real flags:flags conf:conf", prop="C05")
def _(c):
    m = c.m
    f = lambda i, j: c.alpha * m(i, j)
    c.ret(0)
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, UPPER):
        return c.write(m, f, tri(c, True, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, LOWER):
        return c.write(m, f, tri(c, False, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, SYMM) and not c.decide(c_eq(m.rows, m.cols)):
        return fail(c, ESIZE, -1)
    c.write(m, f)


@contract("armas_madd", "blas/madd.c", "A:mat alpha:real flags:flags conf:conf", prop="C05")
def _(c):
    m = c.A
    f = lambda i, j: c.alpha + m(i, j)
    c.ret(0)
    if c.decide(m.isvec()):
        return c.write(m, f)
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, UPPER):
        return c.write(m, f, tri(c, True, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, LOWER):
        return c.write(m, f, tri(c, False, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, SYMM) and not c.decide(c_eq(m.rows, m.cols)):
        return fail(c, ESIZE)
    c.write(m, f)


for name, ab, up in (("madd_lower", 0, 0), ("madd_lower_abs", 1, 0), ("madd_upper", 0, 1), ("madd_upper_abs", 1, 1)):
    def _spec(c, ab=ab, up=up):
        c.requires(c_and(c_eq(c.A.rows, c.B.rows), c_eq(c.A.cols, c.B.cols)))
        c.requires(c_and(c_eq(c.A.rows, c.nR), c_eq(c.A.cols, c.nC)))
        a = absr if ab else (lambda x: x)
        c.write(c.A, lambda i, j: c.alpha * a(c.A(i, j)) + c.beta * a(c.B(i, j)), tri(c, up, False))
    contract(":" + name, "blas/mplus.c", "alpha:real A:mat beta:real B:mat nR:int nC:int", prop="C05")(_spec)

for name, ab in (("madd", 0), ("madd_abs", 1)):
    def _spec(c, ab=ab):
        a = absr if ab else (lambda x: x)
        c.requires(c_and(c_eq(c.A.rows, c.nR), c_eq(c.A.cols, c.nC)))
        if c.flag(c.flags, TRANS | TRANSB):
            c.requires(c_and(c_eq(c.A.rows, c.B.cols), c_eq(c.A.cols, c.B.rows)))
            c.write(c.A, lambda i, j: c.alpha * a(c.A(i, j)) + c.beta * a(c.B(j, i)))
        else:
            c.requires(c_and(c_eq(c.A.rows, c.B.rows), c_eq(c.A.cols, c.B.cols)))
            c.write(c.A, lambda i, j: c.alpha * a(c.A(i, j)) + c.beta * a(c.B(i, j)))
    contract(":" + name, "blas/mplus.c", "alpha:real A:mat beta:real B:mat nR:int nC:int flags:flags", prop="C05")(_spec)


@contract("armas_mcopy", "blas/mcopy.c", "A:mat B:mat flags:flags conf:conf", prop="C05")
def _(c):
    A, B = c.A, c.B
    c.ret(0)
    if c.decide(c_and(A.isvec(), B.isvec())):
        if not c.decide(c_eq(A.size, B.size)):
            return fail(c, ESIZE)
        return c.writev(A, lambda i: B(i))
    if c.flag(c.flags, TRANS):
        if not c.decide(c_and(c_eq(A.rows, B.cols), c_eq(A.cols, B.rows))):
            return fail(c, ESIZE)
        return c.write(A, lambda i, j: B(j, i))
    if not c.decide(c_and(c_eq(A.rows, B.rows), c_eq(A.cols, B.cols))):
        return fail(c, ESIZE)
    c.write(A, lambda i, j: B(i, j))


@contract("armas_mplus", "blas/mplus.c", "alpha:real A:mat beta:real B:mat flags:flags conf:conf", prop="C05")
def _(c):
    A, B = c.A, c.B
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0))):
        return
    if c.decide(c_eq(B.size, 1)):
        # B acts as a constant on the part of A the flags select
        f = lambda i, j: A(i, j) + c.beta * B(0, 0)
        if c.decide(A.isvec()):
            return c.write(A, f)
        if c.flagsel(c.flags, SYMM | UPPER | LOWER, UPPER):
            return c.write(A, f, tri(c, True, c.flag(c.flags, UNIT)))
        if c.flagsel(c.flags, SYMM | UPPER | LOWER, LOWER):
            return c.write(A, f, tri(c, False, c.flag(c.flags, UNIT)))
        if c.flagsel(c.flags, SYMM | UPPER | LOWER, SYMM) and not c.decide(c_eq(A.rows, A.cols)):
            return fail(c, ESIZE)
        return c.write(A, f)
    if c.decide(c_and(A.isvec(), B.isvec())):
        if not c.decide(c_eq(A.size, B.size)):
            return fail(c, ESIZE)
        return c.writev(A, lambda i: c.alpha * A(i) + c.beta * B(i))
    trans = c.flag(c.flags, TRANS | TRANSB)
    if trans:
        if not c.decide(c_and(c_eq(A.rows, B.cols), c_eq(A.cols, B.rows))):
            return fail(c, ESIZE)
    elif not c.decide(c_and(c_eq(A.rows, B.rows), c_eq(A.cols, B.cols))):
        return fail(c, ESIZE)
    a = absr if c.flag(c.flags, ABS_) else (lambda x: x)
    sel = None
    # a triangle of a transposed operand is outside the documented operation
    c.requires(not (trans and c.flag(c.flags, LOWER | UPPER)), "no transpose with a triangle")
    if c.flagsel(c.flags, LOWER | UPPER, LOWER):
        sel = tri(c, False, False)
    elif c.flagsel(c.flags, LOWER | UPPER, UPPER):
        sel = tri(c, True, False)
    if trans:
        c.write(A, lambda i, j: c.alpha * a(A(i, j)) + c.beta * a(B(j, i)), sel)
    else:
        c.write(A, lambda i, j: c.alpha * a(A(i, j)) + c.beta * a(B(i, j)), sel)


def _val(i, j):
    return T.uf("fn:value", [i, j])


@contract("armas_set_values", "blas/mset.c", "A:mat value:func flags:flags", prop="C05")
def _(c):
    A = c.A
    c.ret(0)
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, UPPER):
        return c.write(A, _val, tri(c, True, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, LOWER):
        return c.write(A, _val, tri(c, False, c.flag(c.flags, UNIT)))
    if c.flagsel(c.flags, SYMM | UPPER | LOWER, SYMM):
        if not c.decide(c_eq(A.rows, A.cols)):
            return c.ret(-1)
        c.write(A, _val, lambda i, j: c_lt(j, i))
        c.write(A, lambda i, j: _val(j, i), lambda i, j: c_lt(i, j))
        unit = c.flag(c.flags, UNIT)
        return c.write(A, (lambda i, j: T.ONE) if unit else (lambda i, j: _val(j, j)), lambda i, j: c_eq(i, j))
    c.write(A, _val)


@contract("armas_make_trm", "blas/mset.c", "A:mat flags:flags", prop="C05")
def _(c):
    A = c.A
    if c.flag(c.flags, UPPER):
        sel = lambda i, j: c_lt(j, i)
    elif c.flag(c.flags, LOWER):
        sel = lambda i, j: c_lt(i, j)
    else:
        return
    c.write(A, lambda i, j: T.ZERO, sel)
    if c.flag(c.flags, UNIT):
        c.write(A, lambda i, j: T.ONE, lambda i, j: c_eq(i, j))


def _oper(x):
    return T.uf("fn:oper", [x])


@contract("armas_apply", "blas/mapply.c", "A:mat oper:func flags:flags", prop="C05")
def _(c):
    A = c.A
    c.ret(0)
    sel = None
    if c.flagsel(c.flags, LOWER | UPPER, LOWER):
        sel = tri(c, False, False)
    elif c.flagsel(c.flags, LOWER | UPPER, UPPER):
        sel = tri(c, True, False)
    c.write(A, lambda i, j: _oper(A(i, j)), sel)


@contract("armas_apply2", "blas/mapply.c", "A:mat oper:func p:opaque flags:flags", prop="C05")
def _(c):
    A = c.A
    c.ret(0)
    sel = None
    if c.flagsel(c.flags, LOWER | UPPER, LOWER):
        sel = tri(c, False, False)
    elif c.flagsel(c.flags, LOWER | UPPER, UPPER):
        sel = tri(c, True, False)
    c.write(A, lambda i, j: _oper(A(i, j)), sel)


# ------------------------------------------------------------ rows or columns by a diagonal
for nm in ("mult", "solve"):
    @contract("armas_%s_diag" % nm, "lapack/diag.c", "A:mat alpha:real D:mat flags:flags conf:conf", prop="C05")
    def _(c, nm=nm):
        A, D = c.A, c.D
        if c.decide(c_eq(D.rows, 1)):
            n, d = D.cols, lambda k: D(T.ZERO, k)
        elif c.decide(c_eq(D.cols, 1)):
            n, d = D.rows, lambda k: D(k, T.ZERO)
        else:
            n, d = (D.rows if c.decide(c_le(D.rows, D.cols)) else D.cols), lambda k: D(k, k)
        f = (lambda x, k: c.alpha * x * d(k)) if nm == "mult" else (lambda x, k: c.alpha * x * T.mk_inv(d(k)))
        if nm == "solve":
            c.nonzero(n, d, "the diagonal")
        c.ret(0)
        # a vector goes with a diagonal of its own length, whatever the side
        if c.decide(c_and(A.isvec(), c_eq(n, A.size))):
            row = c.decide(c_eq(A.rows, 1))
            return c.write(A, lambda i, j: f(A(i, j), j if row else i))
        right = c.flag(c.flags, RIGHT) and not c.flag(c.flags, LEFT)
        if not c.decide(c_eq(n, A.cols if right else A.rows)):
            return fail(c, ESIZE)
        c.write(A, lambda i, j: f(A(i, j), j if right else i))
