"""LU and Cholesky factorisations without pivoting and the solvers that use them.
The factors are the unknowns (a ghost of the matrix): the matrix is given as their
product and must end holding them."""
import ctypes
from .lib import *
from .pivot import MKP, Steps, Pivot
from .blas3 import one_triangle
from vc.symex import OPtr
from vc.concrete import mkmat, GEN, ARGS, evalp
from vc.sweep import sweeps


# ------------------------------------------------------------ inputs for the search of a failing input
GEN["pivot"] = lambda *_: {"kind": "null"}


def pass_pivots(a):
    p = (ctypes.c_int * (len(a["pivots"]) + 1))(*a["pivots"])
    P = Pivot(len(a["pivots"]), ctypes.addressof(p), 0)
    return ctypes.byref(P), (p, P)


ARGS["pivot"] = pass_pivots


def factor_of(rnd, m, n):
    """far from singular, whichever part of it is the factor"""
    return [[rnd.choice([-4, -3, -2, 2, 3, 4]) if i == j else rnd.choice([-1, 0, 1, 0.5]) / 2 for j in range(n)] for i in range(m)]


def gen_factor(case, rnd):
    m, n = rnd.randint(1, 12), rnd.randint(1, 12)
    if "chol" in case["fn"] and rnd.random() < 0.9:
        n = m
    case["args"]["A"] = A = mkmat(rnd, m, n)
    A["ghost"] = factor_of(rnd, m, n)
    case["env"]["lb"] = rnd.choice([0, 1, 2, 3, 4, 5])
    if "flags" in case["args"]:
        case["args"]["flags"]["value"] = flagval(rnd, [0, LOWER, UPPER], [0, 0, LEFT, UNIT])


def gen_solve(case, rnd):
    sizes(rnd, case)
    m, n = rnd.randint(1, 7), rnd.randint(1, 4)
    case["args"].update(A=mkmat(rnd, m, m), B=mkmat(rnd, m, n))
    case["args"]["A"]["data"] = factor_of(rnd, m, m)
    case["args"]["flags"]["value"] = flagval(rnd, [0, LOWER, UPPER] if "chol" in case["fn"] else [0, TRANS], [0, 0, LEFT, UNIT])
    if "lu" in case["fn"] and rnd.random() < 0.6:
        case["args"]["P"] = {"kind": "pivot", "pivots": [rnd.randint(k + 1, m) for k in range(m)]}


# ------------------------------------------------------------ L U
def lu_rest(c, F, k):
    """what is left of the product once the first k rows of U and columns of L are
    subtracted: (on and above the diagonal, below it)"""
    return ((lambda i, j: c.sum(k, i, lambda t: F(i, t) * F(t, j)) + F(i, j)),
            (lambda i, j: c.sum(k, j + 1, lambda t: F(i, t) * F(t, j))))


def lu_given(c, A):
    F = c.ghost(A)
    c.nonzero(K(min(A.nr, A.nc)) if hasattr(c, "case") else A.rows, lambda i: F(i, i), "the diagonal of U")
    up, low = lu_rest(c, F, 0)
    c.given(A, up, None, lambda i, j: c_le(i, j))
    c.given(A, low, None, lambda i, j: c_gt(i, j))
    return F


def lu_upto(c, ks, n):
    A = c.view(OPtr("A"), "A")
    F, k = c.ghost(A), ks[-1]
    up, low = lu_rest(c, F, k)
    c.write(A, lambda i, j: F(i, j), lambda i, j: c_or(c_lt(i, k), c_lt(j, k)))
    c.write(A, up, lambda i, j: c_and(c_ge(i, k), c_le(i, j)))
    c.write(A, low, lambda i, j: c_and(c_ge(j, k), c_gt(i, j)))


def lu_blocks(c, ks, n):
    lu_upto(c, ks, n)
    if no_buffer(c):
        c.claim(c_eq(ks[-1], 0))


def no_buffer(c):
    return c.decide(c.nobuffer())


def no_buffer_tri(c):
    """solving and updating a triangle need one only when blocks are packed"""
    return not c.flag(c.optflags(), ONAIVE) and no_buffer(c)


@contract(":unblk_lufactor_nopiv", "lapack/lu.c", "A:mat conf:confnn", prop="C15", opts={"invariants": {"unblk_lufactor_nopiv": sweeps(lu_upto, True)}})
def _(c):
    F = lu_given(c, c.A)
    c.write(c.A, lambda i, j: F(i, j))
    c.ret(0)


@contract(":blk_lufactor_nopiv", "lapack/lu.c", "A:mat lb:pos conf:confnn", prop="C15", opts={"invariants": {"blk_lufactor_nopiv": sweeps(lu_blocks, True)}})
def _(c):
    A = c.A
    c.requires(c_and(c_gt(A.rows, c.lb), c_gt(A.cols, c.lb)))
    F = lu_given(c, A)
    if no_buffer(c):
        c.havoc(A)
        return fail(c, EMEMORY)
    c.write(A, lambda i, j: F(i, j))
    c.ret(0)


# ------------------------------------------------------------ L L^T, U^T U
def chol_rest(c, F, k, upper):
    """what is left of the named triangle once the first k rows of U (columns of L)
    are subtracted"""
    if upper:
        return lambda i, j: c.sum(k, i, lambda t: F(t, i) * F(t, j)) + F(i, i) * F(i, j)
    return lambda i, j: c.sum(k, j, lambda t: F(i, t) * F(j, t)) + F(i, j) * F(j, j)


def tri_of(upper):
    return (lambda i, j: c_le(i, j)) if upper else (lambda i, j: c_ge(i, j))


def chol_given(c, A, upper):
    F = c.ghost(A)
    c.positive(F, A.rows)
    c.given(A, chol_rest(c, F, 0, upper), None, tri_of(upper))
    return F


def chol_upto(upper, blocks):
    def f(c, ks, n):
        A = c.view(OPtr("A"), "A")
        F, k = c.ghost(A), ks[-1]
        c.use_positive(F, k)
        t = tri_of(upper)
        e = (lambda i, j: i) if upper else (lambda i, j: j)
        c.write(A, lambda i, j: F(i, j), lambda i, j: c_and(t(i, j), c_lt(e(i, j), k)))
        c.write(A, chol_rest(c, F, k, upper), lambda i, j: c_and(t(i, j), c_ge(e(i, j), k)))
        if blocks and no_buffer_tri(c):
            c.claim(c_eq(k, 0))
    return f


for nm in ("lower", "upper"):
    upper = nm == "upper"
    for blk in (False, True):
        fn = ("blk" if blk else "unblk") + "_cholfactor_" + nm

        @contract(":" + fn, "lapack/chol.c", "A:mat " + ("lb:pos " if blk else "") + "conf:confnn", prop="C15",
                  opts={"invariants": {fn: sweeps(chol_upto(upper, blk), True)}})
        def _(c, upper=upper, blk=blk):
            A = c.A
            c.requires(c_eq(A.rows, A.cols))
            if blk:
                c.requires(c_gt(A.rows, c.lb))
            F = chol_given(c, A, upper)
            if blk and no_buffer_tri(c):
                c.havoc(A)
                return fail(c, EMEMORY)
            c.write(A, lambda i, j: F(i, j), tri_of(upper))
            c.ret(0)


# ------------------------------------------------------------ entry points
def blocked(c, n, m=None):
    lb = c.env("lb")
    c.requires(c_ge(lb, 0), "the block size is not negative")
    small = [c_eq(lb, 0), c_le(n, lb)] + ([c_le(m, lb)] if m is not None else [])
    return not c.decide(c_or(*small))


@contract("armas_lufactor", "lapack/lu.c", "A:mat P:pivot? conf:conf", prop="C15", opts={"argmakers": MKP, "gen": gen_factor})
def _(c):
    A = c.A
    c.requires(c.P is NULL, "no pivoting")
    F = lu_given(c, A)
    if blocked(c, A.cols, A.rows) and no_buffer(c):
        c.havoc(A)
        return fail(c, EMEMORY)
    c.write(A, lambda i, j: F(i, j))
    c.ret(0)


def cholfactor(c, A, upper):
    if not c.decide(c_eq(A.rows, A.cols)):
        return fail(c, ESIZE)
    F = chol_given(c, A, upper)
    if blocked(c, A.cols) and no_buffer_tri(c):
        c.havoc(A)
        return fail(c, EMEMORY)
    c.write(A, lambda i, j: F(i, j), tri_of(upper))
    c.ret(0)


@contract("armas_cholesky", "lapack/chol.c", "A:mat? flags:flags conf:conf", prop="C15", opts={"gen": gen_factor})
def _(c):
    if c.A is NULL:
        return fail(c, EINVAL)
    cholfactor(c, c.A, not c.flag(c.flags, LOWER))


for nm, ps in (("armas_cholfactor", "A:mat? P:pivot? flags:flags conf:conf"), ("armas_cholfactor_w", "A:mat? P:pivot? flags:flags wb:opaque conf:conf")):
    @contract(nm, "lapack/chol.c", ps, prop="C15", opts={"argmakers": MKP, "gen": gen_factor})
    def _(c):
        if c.A is NULL:
            return fail(c, EINVAL)
        c.requires(c.P is NULL, "no pivoting")
        cholfactor(c, c.A, not c.flag(c.flags, LOWER))


def rows_exchanged(d, piv, fwd):
    d = dict(d)
    m = 1 + max(i for i, j in d)
    for k in range(len(piv)) if fwd else reversed(range(len(piv))):
        q, t = (k if fwd else m - len(piv) + k), piv[k] - 1
        if 0 <= t < m and t != q:
            for j in {j for i, j in d}:
                d[t, j], d[q, j] = d[q, j], d[t, j]
    return d


def given_exchanged(c, B, P, f):
    """B is such that its rows exchanged are f"""
    if hasattr(c, "case"):
        c.given(B, f)
        if c.mems[B.mem]:
            d = rows_exchanged(c.mems[B.mem], c.case["args"]["P"]["pivots"], False)
            c.mems[B.mem] = d
            for i, j in d:
                c.case["args"]["B"]["data"][i][j] = float(evalp(d[i, j]))
        return
    s = Steps(c, B, P, "rows", True)
    if c._mode != 'verify':
        raise Unsupported("what the rows are exchanged for")
    start = c._X.snapshot(c._st, B.reg)
    c._st.objs["$pivoted"] = {B.reg: (s, lambda i, j: T.rd(start, *B.cell(i, j), 'r'), f)}


def write_exchanged(c, B, P, Z):
    """B becomes Z with its rows exchanged, the last exchange first"""
    if hasattr(c, "case"):
        d = {(i, j): Z(K(i), K(j)) for i in range(B.nr) for j in range(B.nc)}
        if d:
            d = rows_exchanged(d, c.case["args"]["P"]["pivots"], False)
            c.write(B, lambda i, j: d[int(evalp(i)), int(evalp(j))])
        return
    s = Steps(c, B, P, "rows", False)
    base = Z.reg
    f = lambda i, j: s.state(base, s.n, i, j)
    if c._mode == 'verify':
        c._st.objs["$pivoted"] = {B.reg: (s, lambda i, j: Z(i, j), f)}
    c.write(B, f)


@contract("armas_lusolve", "lapack/lu.c", "B:mat A:mat P:pivot? flags:flags conf:conf", prop="C15", opts={"argmakers": MKP, "gen": gen_solve})
def _(c):
    A, B, P = c.A, c.B, c.P
    if not c.decide(c_and(c_eq(B.rows, A.cols), c_eq(A.rows, A.cols))):
        return fail(c, ESIZE)
    n = A.rows
    np = T.ZERO if P is NULL else K(len(c.case["args"]["P"]["pivots"])) if hasattr(c, "case") else c.val(P, ("npivots",))
    c.requires(c_le(np, n), "not more pivots than rows")
    pivots = not c.decide(c_eq(np, 0))
    X = c.ghost(B)
    c.nonzero(n, lambda i: A(i, i), "the diagonal of U")
    trans = c.flag(c.flags, TRANS)
    if trans:
        W = lambda i, j: c.sum(i + 1, n, lambda t: A(t, i) * X(t, j)) + X(i, j)
        c.given(B, lambda i, j: c.sum(0, i + 1, lambda t: A(t, i) * W(t, j)))
    else:
        W = lambda i, j: c.sum(i, n, lambda t: A(i, t) * X(t, j))
        f = lambda i, j: c.sum(0, i, lambda t: A(i, t) * W(t, j)) + W(i, j)
        if pivots:
            given_exchanged(c, B, P, f)
        else:
            c.given(B, f)
    solved(c, A, B, X, W, (lambda: write_exchanged(c, B, P, X)) if trans and pivots else None)


def solved(c, A, B, X, W, last=None):
    c.stage(B, W)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0))):
        return c.ret(0)
    if no_buffer_tri(c):
        c.havoc(B)
        return fail(c, EMEMORY)
    if last:
        last()
    else:
        c.write(B, lambda i, j: X(i, j))
    c.ret(0)


@contract("armas_cholsolve", "lapack/chol.c", "B:mat A:mat P:pivot? flags:flags conf:conf", prop="C15", opts={"argmakers": MKP, "gen": gen_solve})
def _(c):
    A, B = c.A, c.B
    c.requires(c.P is NULL, "no pivoting")
    if not c.decide(c_and(c_eq(B.rows, A.cols), c_eq(A.rows, A.cols))):
        return fail(c, ESIZE)
    n = A.rows
    X = c.ghost(B)
    c.nonzero(n, lambda i: A(i, i), "the diagonal of the factor")
    a = (lambda i, j: A(i, j)) if c.flag(c.flags, LOWER) else (lambda i, j: A(j, i))       # L
    W = lambda i, j: c.sum(i, n, lambda t: a(t, i) * X(t, j))
    c.given(B, lambda i, j: c.sum(0, i + 1, lambda t: a(i, t) * W(t, j)))
    solved(c, A, B, X, W)
