"""BLAS level 1 vectors."""
from .lib import *


# ------------------------------------------------------------------ updates
@contract("armas_axpby_unsafe", "blas/axpy.c", "beta:real y:vec alpha:real x:vec", prop="C03")
def _(c):
    c.requires(c_eq(c.x.n, c.y.n))
    c.writev(c.y, lambda i: c.beta * c.y(i) + c.alpha * c.x(i))


def _axpby(c, beta):
    x, y = c.x, c.y
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR)
    if not c.decide(c_eq(x.size, y.size)):
        return fail(c, ESIZE)
    c.writev(y, lambda i: beta * y(i) + c.alpha * x(i))
    c.ret(0)


@contract("armas_axpby", "blas/axpy.c", "beta:real y:mat alpha:real x:mat conf:conf", prop="C03")
def _(c):
    _axpby(c, c.beta)


@contract("armas_axpy", "blas/axpy.c", "y:mat alpha:real x:mat conf:conf", prop="C03")
def _(c):
    _axpby(c, T.ONE)


@contract("blas/swap.c:vec_swap", "blas/swap.c", "X:vec Y:vec N:int", prop="C03")
def _(c):
    c.requires(c_eq(c.X.n, c.Y.n))
    c.requires(c_eq(c.X.n, c.N))
    c.writev(c.X, lambda i: c.Y(i))
    c.writev(c.Y, lambda i: c.X(i))


@contract("armas_swap", "blas/swap.c", "Y:mat X:mat conf:conf", prop="C03")
def _(c):
    x, y = c.X, c.Y
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR)
    if not c.decide(c_eq(x.size, y.size)):
        return fail(c, ESIZE)
    c.ret(0)
    c.writev(y, lambda i: x(i))
    c.writev(x, lambda i: y(i))


@contract("blas/mcopy.c:vector_copy", "blas/mcopy.c", "X:vec Y:vec N:nat", prop="C03")
def _(c):
    c.requires(c_le(c.N, c.X.n))
    c.requires(c_le(c.N, c.Y.n))
    c.writev(c.X, lambda i: c.Y(i), lambda i: c_lt(i, c.N))


@contract("armas_copy", "blas/mcopy.c", "Y:mat X:mat conf:conf", prop="C03")
def _(c):
    x, y = c.X, c.Y
    if c.decide(c_or(c_eq(x.size, 0), c_eq(y.size, 0))):
        return c.ret(0)
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR)
    c.writev(y, lambda i: x(i), lambda i: c_lt(i, x.n))
    c.ret(0)


@contract("blas/mscale.c:vec_scale", "blas/mscale.c", "X:vec alpha:real N:int", prop="C03")
def _(c):
    c.requires(c_eq(c.X.n, c.N))
    c.writev(c.X, lambda i: c.alpha * c.X(i))


@contract("armas_scale_unsafe", "blas/mscale.c", "x:mat alpha:real", prop=("C03", "C05"))
def _(c):
    c.write(c.x, lambda i, j: c.alpha * c.x(i, j))
    c.ret(0)


@contract("armas_scale", "blas/mscale.c", "x:mat alpha:real conf:conf", prop="C03")
def _(c):
    x = c.x
    if c.decide(c_eq(x.size, 0)):
        return c.ret(0)
    if not c.decide(x.isvec()):
        return fail(c, ENEED_VECTOR)
    c.write(x, lambda i, j: c.alpha * x(i, j))
    c.ret(0)


@contract("blas/madd.c:vec_add", "blas/madd.c", "X:vec alpha:real N:int", prop="C05")
def _(c):
    c.requires(c_eq(c.X.n, c.N))
    c.writev(c.X, lambda i: c.alpha + c.X(i))


# --------------------------------------------------------------- reductions
@contract("blas/dot.c:vec_dot", "blas/dot.c", "X:vec Y:vec N:int", prop="C04")
def _(c):
    c.requires(c_eq(c.X.n, c.Y.n))
    c.requires(c_eq(c.X.n, c.N))
    c.ret(dot(c, c.N, c.X, c.Y))


@contract("blas/dot.c:vec_dot_recursive", "blas/dot.c", "X:vec Y:vec n:int m:int", prop="C04")
def _(c):
    c.requires(c_eq(c.X.n, c.Y.n))
    c.requires(c_eq(c.X.n, c.n))
    c.requires(c_ge(c.m, 1))
    c.decreases(c.n)
    c.ret(dot(c, c.n, c.X, c.Y))


@contract("armas_adot_unsafe", "blas/dot.c", "value:scalarptr alpha:real x:vec y:vec", prop="C04")
def _(c):
    c.requires(c_eq(c.x.n, c.y.n))
    c.setval(c.value, c.val(c.value) + c.alpha * dot(c, c.x.n, c.x, c.y))


@contract("armas_dot_unsafe", "blas/dot.c", "x:vec y:vec", prop="C04")
def _(c):
    c.requires(c_eq(c.x.n, c.y.n))
    c.ret(dot(c, c.x.n, c.x, c.y))


@contract("armas_adot", "blas/dot.c", "value:scalarptr? alpha:real x:mat y:mat conf:conf", prop="C04")
def _(c):
    x, y = c.x, c.y
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR, -1)
    if not c.decide(c_eq(x.size, y.size)):
        return fail(c, ESIZE, -1)
    if c.value is NULL:
        return fail(c, EINVAL, -1)
    c.setval(c.value, c.val(c.value) + c.alpha * dot(c, x.n, x, y))
    c.ret(0)


@contract("armas_dot", "blas/dot.c", "x:mat y:mat conf:conf", prop="C04")
def _(c):
    x, y = c.x, c.y
    if not c.decide(c_and(x.isvec(), y.isvec())):
        return fail(c, ENEED_VECTOR, 0)
    if not c.decide(c_eq(x.size, y.size)):
        return fail(c, ESIZE, 0)
    c.ret(dot(c, x.n, x, y))


def asum(c, x):
    return c.sum(0, x.n, lambda k: absr(x(k)))


@contract("blas/asum.c:vec_asum", "blas/asum.c", "X:vec N:int", prop="C04")
def _(c):
    c.requires(c_eq(c.X.n, c.N))
    c.ret(asum(c, c.X))


@contract("blas/asum.c:vec_asum_kahan", "blas/asum.c", "X:vec N:int", prop="C04")
def _(c):
    c.requires(c_eq(c.X.n, c.N))
    c.ret(asum(c, c.X))


@contract("blas/asum.c:vec_asum_recursive", "blas/asum.c", "X:vec n:int m:int", prop="C04")
def _(c):
    c.requires(c_eq(c.X.n, c.n))
    c.requires(c_ge(c.m, 1))
    c.decreases(c.n)
    c.ret(asum(c, c.X))


@contract("armas_asum", "blas/asum.c", "x:mat conf:conf", prop="C04")
def _(c):
    if not c.decide(c.x.isvec()):
        return fail(c, ENEED_VECTOR, 0)
    c.ret(asum(c, c.x))


# ---- extreme elements
from vc import quant as _quant      # noqa: E402
_EXT = _quant.handler(_quant.family())


def _extreme(fn, up, code):
    def spec(c):
        if not c.decide(c.x.isvec()):
            return fail(c, ENEED_VECTOR, -code(ENEED_VECTOR))
        if c.decide(c_eq(c.x.size, 0)):
            return fail(c, ESIZE, -code(ESIZE))
        c.best(c.x, up, "abs")
    contract(fn, "blas/iamax.c", "x:mat conf:conf", prop="C04", opts={"invariants": {fn: _EXT}})(spec)


_extreme("armas_iamax", True, lambda e: e)
_extreme("armas_iamin", False, lambda e: 1)


@contract("armas_amax", "blas/iamax.c", "x:mat conf:conf", prop="C04", opts={"invariants": {"armas_amax": _EXT}})
def _(c):
    if not c.decide(c.x.isvec()):
        return fail(c, ENEED_VECTOR, 0)
    if c.decide(c_eq(c.x.size, 0)):
        return fail(c, ESIZE, 0)
    c.extreme(c.x, True, "abs")
