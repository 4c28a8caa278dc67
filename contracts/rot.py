"""Plane rotations and elementary reflectors."""
import ctypes
from fractions import Fraction
from .lib import *
from vc.concrete import mkmat
from vc import symex as S
from vc.symex import OPtr
from vc.sweep import sweeps


# ------------------------------------------------------------ rotations
def inrange(i, n):
    return c_and(c_ge(i, 0), c_lt(i, n))


@contract("armas_gvrotate", "lapack/rotate.c", "v0:scalarptr v1:scalarptr c_:real s_:real y0:real y1:real", prop="C16")
def _(c):
    c.setval(c.v0, c.c_ * c.y0 + c.s_ * c.y1)
    c.setval(c.v1, c.c_ * c.y1 - c.s_ * c.y0)


def rows_rot(c, A, cs, sn, r1, r2, lo, hi):
    """rows r1 and r2 of columns lo <= j < hi"""
    sel = lambda j: c_and(c_ge(j, lo), c_lt(j, hi))
    c.write(A, lambda i, j: cs * A(i, j) + sn * A(r2, j), lambda i, j: c_and(c_eq(i, r1), sel(j)))
    c.write(A, lambda i, j: cs * A(i, j) - sn * A(r1, j), lambda i, j: c_and(c_eq(i, r2), sel(j)))


def cols_rot(c, A, cs, sn, c1, c2, lo, hi):
    sel = lambda i: c_and(c_ge(i, lo), c_lt(i, hi))
    c.write(A, lambda i, j: cs * A(i, j) + sn * A(i, c2), lambda i, j: c_and(c_eq(j, c1), sel(i)))
    c.write(A, lambda i, j: cs * A(i, j) - sn * A(i, c1), lambda i, j: c_and(c_eq(j, c2), sel(i)))


@contract(":gvleft", "lapack/givens.c", "A:mat c_:real s_:real r1:int r2:int col:int ncol:int", prop="C16")
def _(c):
    A = c.A
    c.requires(c_and(inrange(c.r1, A.rows), inrange(c.r2, A.rows), c_not(c_eq(c.r1, c.r2)), c_ge(c.col, 0), c_le(c.col + c.ncol, A.cols)))
    rows_rot(c, A, c.c_, c.s_, c.r1, c.r2, c.col, c.col + c.ncol)


@contract(":gvright", "lapack/givens.c", "A:mat c_:real s_:real c1:int c2:int row:int nrow:int", prop="C16")
def _(c):
    A = c.A
    c.requires(c_and(inrange(c.c1, A.cols), inrange(c.c2, A.cols), c_not(c_eq(c.c1, c.c2)), c_ge(c.row, 0), c_le(c.row + c.nrow, A.rows)))
    cols_rot(c, A, c.c_, c.s_, c.c1, c.c2, c.row, c.row + c.nrow)


@contract("armas_gvleft", "lapack/givens.c", "A:mat c_:real s_:real r1:int r2:int col:int ncol:int", prop="C16")
def _(c):
    A = c.A
    c.requires(c_and(inrange(c.r1, A.rows), inrange(c.r2, A.rows), c_ge(c.col, 0), c_ge(c.ncol, 0)))
    hi = A.cols if c.decide(c_ge(c.col + c.ncol, A.cols)) else c.col + c.ncol
    if c.decide(c_eq(c.r1, c.r2)):
        c.write(A, lambda i, j: c.c_ * A(i, j), lambda i, j: c_and(c_eq(i, c.r1), c_ge(j, c.col), c_lt(j, hi)))
    else:
        rows_rot(c, A, c.c_, c.s_, c.r1, c.r2, c.col, hi)


@contract("armas_gvright", "lapack/givens.c", "A:mat c_:real s_:real c1:int c2:int row:int nrow:int", prop="C16")
def _(c):
    A = c.A
    c.requires(c_and(inrange(c.c1, A.cols), inrange(c.c2, A.cols), c_ge(c.row, 0), c_ge(c.nrow, 0)))
    hi = A.rows if c.decide(c_ge(c.row + c.nrow, A.rows)) else c.row + c.nrow
    if c.decide(c_eq(c.c1, c.c2)):
        c.write(A, lambda i, j: c.c_ * A(i, j), lambda i, j: c_and(c_eq(j, c.c1), c_ge(i, c.row), c_lt(i, hi)))
    else:
        cols_rot(c, A, c.c_, c.s_, c.c1, c.c2, c.row, hi)


@contract("armas_gvrot_vec", "lapack/givens.c", "X:vec Y:vec c_:real s_:real", prop="C16")
def _(c):
    c.requires(c_eq(c.X.n, c.Y.n))
    c.writev(c.X, lambda i: c.c_ * c.X(i) + c.s_ * c.Y(i))
    c.writev(c.Y, lambda i: c.c_ * c.Y(i) - c.s_ * c.X(i))
    c.ret(0)


class Rotations:
    """contents of A after the first k rotations, told step by step"""

    def __init__(self, c, A, C, Sn, left, fwd, start, m):
        self.c, self.A, self.C, self.S, self.left, self.fwd, self.start, self.m = c, A, C, Sn, left, fwd, start, m
        self.base = [c._X.snapshot(c._st, v.reg) for v in (A, C, Sn)]

    def state(self, k, i, j):
        V = (self.A, self.C, self.S)
        return T.uf("rotated.%s.%s:%s" % ("left" if self.left else "right", "forward" if self.fwd else "backward", ":".join(self.base)),
                    tuple(K(x) for x in (k, i, j, self.start, self.m)) + tuple(x for v in V for x in (v.r0, v.c0, v.rows, v.cols)), 'r')

    def write(self, k):
        self.c.write(self.A, lambda i, j: self.state(k, i, j))

    def unfold(self, k):
        self.write(k)
        n = k if self.fwd else self.m - 1 - k
        cs, sn = self.C(n), self.S(n)
        g = lambda i, j: self.state(k, i, j) if self.left else self.state(k, j, i)
        p = self.start + n
        for r, f in ((p, lambda j: cs * g(p, j) + sn * g(p + 1, j)), (p + 1, lambda j: cs * g(p + 1, j) - sn * g(p, j))):
            self.c.write(self.A, (lambda i, j, f=f: f(j)) if self.left else (lambda i, j, f=f: f(i)),
                         (lambda i, j, r=r: c_eq(i, r)) if self.left else (lambda i, j, r=r: c_eq(j, r)))


BACKWARD = 0x40000


def gvupdate(c, A, C, Sn, start, nrot, flags):
    left, fwd = c.flag(flags, LEFT), not c.flag(flags, BACKWARD)
    room = (A.rows if left else A.cols) - 1 - start
    m = nrot
    if c.decide(c_gt(nrot, room)):
        m = T.ZERO if c.decide(c_le(room, 0)) else room
    return Rotations(c, A, C, Sn, left, fwd, start, m)


def rotated(c, ks, n):
    A, C, Sn = (c.view(OPtr(x), x) for x in ("A", "C", "S"))
    r = gvupdate(c, A, C, Sn, T.sym("start"), T.sym("nrot"), S.Flags("flags"))
    if c.phase == 'start':
        c.write(A, lambda i, j: T.rd("A", A.cell(i, j)[0], A.cell(i, j)[1], 'r'))
    elif c.phase == 'at':
        r.write(ks[-1])
    else:
        r.unfold(ks[-1] - 1)


def gen_up(rnd):
    n = lambda: rnd.choice([1, 2, 3, 4, 5, 8])
    return {"rows": n(), "cols": n(), "start": rnd.choice([0, 0, 1, 2, 5]), "nrot": rnd.choice([0, 1, 2, 3, 4, 7]), "pad": rnd.choice([1, 3]),
            "inc": rnd.choice([0, 1, 3]), "flags": rnd.choice([LEFT, RIGHT]) | rnd.choice([0, BACKWARD]), "seed": rnd.randint(0, 9999)}


class Dense_(ctypes.Structure):
    _fields_ = [("elems", ctypes.c_void_p), ("step", ctypes.c_int), ("rows", ctypes.c_int), ("cols", ctypes.c_int),
                ("data", ctypes.c_void_p), ("nbytes", ctypes.c_int)]


def drive_up(R, case):
    """each rotation by hand"""
    import math
    import random
    rnd = random.Random(case["seed"])
    m, n, f, st = case["rows"], case["cols"], case["flags"], case["start"]
    ld, k = m + case["pad"], max(case["nrot"], 1)
    left = bool(f & LEFT)
    dbl = ctypes.c_double
    a = (dbl * (ld * n))(*[rnd.choice([7.25, -1.5, 3.0, 100.0]) for _ in range(ld * n)])
    w = [rnd.choice([0, 0, 0.5, 2, -1, math.pi]) for _ in range(k)]
    inc = case["inc"]
    cs = [(dbl * (k * max(inc, 1)))(*[7e77] * (k * max(inc, 1))) for _ in range(2)]
    for i in range(k):
        cs[0][i * max(inc, 1)], cs[1][i * max(inc, 1)] = math.cos(w[i]), 0.0 if w[i] == math.pi else math.sin(w[i])
    vec = lambda b: Dense_(ctypes.addressof(b), inc, 1, k, None, 0) if inc else Dense_(ctypes.addressof(b), k, k, 1, None, 0)
    A = Dense_(ctypes.addressof(a), ld, m, n, None, 0)
    e = list(a)
    room = max(0, min(case["nrot"], (m if left else n) - 1 - st))
    for t in reversed(range(room)) if f & BACKWARD else range(room):
        co, si = math.cos(w[t]), math.sin(w[t])
        for j in range(n if left else m):
            p, q = (st + t + j * ld, st + t + 1 + j * ld) if left else (j + (st + t) * ld, j + (st + t + 1) * ld)
            e[p], e[q] = co * e[p] + si * e[q], co * e[q] - si * e[p]
    g = R.lib.armas_d_gvupdate
    g.restype = ctypes.c_int
    C, Sn = vec(cs[0]), vec(cs[1])
    rc = g(ctypes.byref(A), st, ctypes.byref(C), ctypes.byref(Sn), case["nrot"], f)
    if rc != room:
        return "armas_gvupdate returns %d for %d rotations" % (rc, room)
    for i, (u, v) in enumerate(zip(a, e)):
        if not abs(u - v) <= 1e-9 * (1 + abs(v)):
            return "armas_gvupdate: element (%d, %d) of the storage is %r, expected %r" % (i % ld, i // ld, u, v)
    return None


@contract("armas_gvupdate", "lapack/givens.c", "A:mat start:nat C:vec S:vec nrot:nat flags:flags", prop="C16",
          opts={"driver": (gen_up, drive_up), "invariants": {"armas_gvupdate": sweeps(rotated)}})
def _(c):
    r = gvupdate(c, c.A, c.C, c.S, c.start, c.nrot, c.flags)
    c.ret(r.m)
    c.requires(c_and(c_ge(c.C.n, r.m), c_ge(c.S.n, r.m)), "a rotation for each pair")
    if c.decide(c_eq(r.m, 0)):
        return
    r.write(r.m)


def gen_gv(rnd):
    v = lambda: rnd.choice([0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1e-3, -1e3, rnd.uniform(-9, 9)])
    return {"fn": "armas_gvcompute", "a": v(), "b": v()}


def drive_gv(R, case):
    a, b = case["a"], case["b"]
    o = [ctypes.c_double(7.25e77) for _ in range(3)]
    f = R.lib.armas_d_gvcompute
    f.restype = None
    f(*([ctypes.byref(x) for x in o] + [ctypes.c_double(a), ctypes.c_double(b)]))
    cs, sn, r = (x.value for x in o)
    big = 1e-9 * (1 + abs(a) + abs(b))
    for d, what in ((cs * a + sn * b - r, "c a + s b - r"), (cs * b - sn * a, "c b - s a"), (cs * cs + sn * sn - 1, "c^2 + s^2 - 1")):
        if not abs(d) <= big:
            return "%s = %r (c=%r s=%r r=%r)" % (what, d, cs, sn, r)
    return None


for nm, src, key in (("gvrotg", "lapack/rotate.c", ":gvrotg"), ("armas_gvcompute", "lapack/rotate.c", "armas_gvcompute")):
    def _spec(c):
        """[c s; -s c] (a, b) = (r, 0) with c^2 + s^2 = 1"""
        o = lambda post, p: post(p)
        c.changes(c.c_, "")
        c.changes(c.s_, "")
        c.changes(c.r_, "")
        c.ensures(lambda post: c_req(post(c.c_) * c.a + post(c.s_) * c.b, post(c.r_)), "the first component becomes r")
        c.ensures(lambda post: c_req(post(c.c_) * c.b - post(c.s_) * c.a, 0), "the second component becomes zero")
        c.ensures(lambda post: c_req(post(c.c_) * post(c.c_) + post(c.s_) * post(c.s_), 1), "the rotation preserves length")
    contract(key, src, "c_:scalarptr s_:scalarptr r_:scalarptr a:real b:real", prop="C16",
             opts={} if key.startswith(":") else {"driver": (gen_gv, drive_gv)})(_spec)


# ---------------------------------------------------- elementary reflectors
def house_apply(c, tau, v, a1, A2, left):
    """[a1; A2] := (I - tau [1; v] [1; v]^T) [a1; A2], from the left or the right"""
    if left:
        w = lambda j: a1(j) + c.sum(0, A2.rows, lambda k: A2(k, j) * v(k))
        c.writev(a1, lambda j: a1(j) - tau * w(j))
        c.write(A2, lambda i, j: A2(i, j) - tau * v(i) * w(j))
    else:
        w = lambda i: a1(i) + c.sum(0, A2.cols, lambda k: A2(i, k) * v(k))
        c.writev(a1, lambda i: a1(i) - tau * w(i))
        c.write(A2, lambda i, j: A2(i, j) - tau * v(j) * w(i))


@contract("armas_apply_householder2x1", "lapack/house.c", "tau:mat? v:mat a1:mat A2:mat w1:mat flags:flags conf:confnn", prop="C16")
def _(c):
    A2, v, a1, w = c.A2, c.v, c.a1, c.w1
    left = c.flag(c.flags, LEFT)
    c.ret(0)
    m, n = (A2.rows, A2.cols) if left else (A2.cols, A2.rows)
    c.requires(c_and(c_ge(m, 1), c_ge(n, 1)), "there is something to transform")
    for x, k in ((v, m), (a1, n), (w, n)):
        c.requires(c_and(c_or(c_eq(x.rows, 1), c_eq(x.cols, 1)), c_eq(x.size, k)), "vectors fit the matrix")
    if c.tau is not NULL:
        c.requires(c_and(c_eq(c.tau.rows, 1), c_eq(c.tau.cols, 1)))
        t = c.tau(0, 0)
        if c.decide(c_req(t, 0)):
            return
    else:
        t = T.K(2)
    house_apply(c, t, v, a1, A2, left)
    c.havoc(w)


@contract("armas_apply_householder1x1", "lapack/house.c", "tau:mat? v:mat A:mat w:mat flags:flags conf:confnn", prop="C16")
def _(c):
    A, v, w = c.A, c.v, c.w
    left = c.flag(c.flags, LEFT)
    c.ret(0)
    m, n = (A.rows, A.cols) if left else (A.cols, A.rows)
    c.requires(c_and(c_ge(m, 1), c_ge(n, 1)), "there is something to transform")
    for x, k in ((v, m), (w, n)):
        c.requires(c_and(c_or(c_eq(x.rows, 1), c_eq(x.cols, 1)), c_eq(x.size, k)), "vectors fit the matrix")
    if c.tau is not NULL:
        c.requires(c_and(c_eq(c.tau.rows, 1), c_eq(c.tau.cols, 1)))
        t = c.tau(0, 0)
        if c.decide(c_req(t, 0)):
            return
    else:
        t = T.K(2)
    if left:
        c.write(A, lambda i, j: A(i, j) - t * v(i) * c.sum(0, m, lambda k: A(k, j) * v(k)))
    else:
        c.write(A, lambda i, j: A(i, j) - t * v(j) * c.sum(0, m, lambda k: A(i, k) * v(k)))
    c.havoc(w)


@contract("armas_houseapply2x1", "lapack/house.c", "a1:mat A2:mat tau:mat? v:mat w:vec(col) flags:flags conf:conf", prop="C16")
def _(c):
    A2, v, a1, w = c.A2, c.v, c.a1, c.w
    left = c.flag(c.flags, LEFT)
    if c.decide(c_lt(w.n, a1.size)):
        return fail(c, ESIZE, -1)
    c.ret(0)
    m, n = (A2.rows, A2.cols) if left else (A2.cols, A2.rows)
    c.requires(c_and(c_ge(m, 1), c_ge(n, 1)), "there is something to transform")
    for x, k in ((v, m), (a1, n)):
        c.requires(c_and(c_or(c_eq(x.rows, 1), c_eq(x.cols, 1)), c_eq(x.size, k)), "vectors fit the matrix")
    if c.tau is not NULL:
        c.requires(c_and(c_eq(c.tau.rows, 1), c_eq(c.tau.cols, 1)))
        t = c.tau(0, 0)
        if c.decide(c_req(t, 0)):
            return
    else:
        t = T.K(2)
    house_apply(c, t, v, a1, A2, left)
    c.havoc(w)


@contract("armas_houseapply", "lapack/house.c", "A:mat tau:mat? v:mat w:vec(col)? flags:flags conf:conf", prop="C16")
def _(c):
    A, v, w = c.A, c.v, c.w
    right = c.flag(c.flags, RIGHT)
    unit = c.flag(c.flags, UNIT)
    c.requires(right != c.flag(c.flags, LEFT), "one side is named")
    scaled = 1 if c.tau is not NULL or unit else 0
    c.requires(not unit or c.tau is not NULL, "a scaled reflector comes with its scalar")
    c.requires(c_and(c_ge(A.rows, 1), c_ge(A.cols, 1), c_ge(v.size, 1), c_or(c_eq(v.rows, 1), c_eq(v.cols, 1))))
    c.ret(0)
    if scaled:
        c.requires(c_and(c_eq(c.tau.rows, 1), c_eq(c.tau.cols, 1)))
        t = c.tau(0, 0)
    if c.decide(A.isvec()):
        if not c.decide(c_eq(A.size - scaled, v.size)):
            return fail(c, ESIZE, -1)
        if scaled:
            al = t * (A(0) + c.sum(0, v.size, lambda k: A(k + 1) * v(k)))
            c.writev(A, lambda i: A(i) - al, lambda i: c_eq(i, 0))
            c.writev(A, lambda i: A(i) - al * v(i - 1), lambda i: c_ge(i, 1))
        else:
            al = 2 * c.sum(0, v.size, lambda k: A(k) * v(k))
            c.writev(A, lambda i: A(i) - al * v(i))
        return
    m, n = (A.cols, A.rows) if right else (A.rows, A.cols)
    if not c.decide(c_eq(m - scaled, v.size)):
        return fail(c, ESIZE, -1)
    if w is NULL or c.decide(c_lt(w.n, n)):
        return fail(c, EWORK, -1)
    c.havoc(w)
    if scaled:
        if c.decide(c_req(t, 0)):
            return
        if right:
            s = lambda i: t * (A(i, 0) + c.sum(0, v.size, lambda k: A(i, k + 1) * v(k)))
            c.write(A, lambda i, j: A(i, j) - s(i), lambda i, j: c_eq(j, 0))
            c.write(A, lambda i, j: A(i, j) - s(i) * v(j - 1), lambda i, j: c_ge(j, 1))
        else:
            s = lambda j: t * (A(0, j) + c.sum(0, v.size, lambda k: A(k + 1, j) * v(k)))
            c.write(A, lambda i, j: A(i, j) - s(j), lambda i, j: c_eq(i, 0))
            c.write(A, lambda i, j: A(i, j) - s(j) * v(i - 1), lambda i, j: c_ge(i, 1))
    elif right:
        c.write(A, lambda i, j: A(i, j) - 2 * v(j) * c.sum(0, m, lambda k: A(i, k) * v(k)))
    else:
        c.write(A, lambda i, j: A(i, j) - 2 * v(i) * c.sum(0, m, lambda k: A(k, j) * v(k)))


def norm2(c, x):
    n = c.extent(x) if False else x
    return T.mk_sqrt(c.sum(0, x.size, lambda k: x(k) * x(k)))


@contract("armas_nrm2", "blas/nrm2.c", "x:mat conf:conf", prop=("C04", "C16"))
def _(c):
    x = c.x
    if not c.decide(x.isvec()):
        c.error(ENEED_VECTOR)
        return c.ret(0)
    if c.decide(c_eq(x.size, 0)):
        return c.ret(0)
    if c.decide(c_eq(x.size, 1)):
        return c.ret(absr(x(0)))
    c.ret(norm2(c, x))


# ------------------------------------------------- generation of a reflector
NONNEG, HHNEG = 0x1000000, 0x800000
NOSCALE = "the vector is not so short that it is scaled first"


def norm_of(c, n, x):
    """norm of a vector, None when it is zero"""
    if c.decide(c_eq(n, 0)):
        return None
    nx = absr(x(0)) if c.decide(c_eq(n, 1)) else T.mk_sqrt(c.sum(0, n, lambda k: x(k) * x(k)))
    return None if c.decide(c_req(nx, 0)) else nx


def house_spec(c, a, n, x, flags, put, mayneg=True):
    """H = I - tau (1; v)(1; v)^T takes (a; x) to (beta; 0) or (-beta; 0);
    put(new a, new x, tau)"""
    nx = norm_of(c, n, x)
    if nx is None:
        return put(None, None, T.ZERO)
    b = T.mk_sqrt(a * a + nx * nx)
    c.requires(c_rle(Fraction(2) ** -968, b), NOSCALE)
    neg, nonneg = mayneg and c.flag(flags, HHNEG), c.flag(flags, NONNEG)
    pos = nonneg or c.decide(c_rle(0, a)) == bool(neg)
    be = b if pos else -b                   # H (a; x) = sgn * (be; 0)
    sgn = T.K(-1 if neg else 1)
    de = a - sgn * be
    t = (be - sgn * a) * T.mk_inv(be)
    put(be, lambda i: x(i) * T.mk_inv(de), t)
    # what these values are good for
    c.ensures(lambda post: c_not(c_or(c_req(be, 0), c_req(de, 0))), "the divisors are not zero")
    vx = nx * nx * T.mk_inv(de)
    vv = nx * nx * T.mk_inv(de) * T.mk_inv(de)
    c.ensures(lambda post: c_req(t * (1 + vv), 2), "the reflector is orthogonal")
    c.ensures(lambda post: c_req(a - t * (a + vx), sgn * be), "the first component becomes beta")
    c.ensures(lambda post: c_req(1 - t * (a + vx) * T.mk_inv(de), 0), "the other components become zero")


def unscaled_spec(c, a, n, x, flags, put):
    """H = I - 2 (v0; v)(v0; v)^T takes (a; x) to (beta; 0); put(v0, v, beta)"""
    nx = norm_of(c, n, x)
    if nx is None:
        return put(T.ZERO, None, a)
    b = T.mk_sqrt(a * a + nx * nx)
    be = b if c.flag(flags, NONNEG) or c.decide(c_rlt(a, 0)) else -b
    al = a - be
    de = T.mk_sqrt(al * al + nx * nx)
    v0 = al * T.mk_inv(de)
    put(v0, lambda i: x(i) * T.mk_inv(de), be)
    c.ensures(lambda post: c_rlt(0, al * al + nx * nx), "the divisor is not zero")
    vx = nx * nx * T.mk_inv(de)
    c.ensures(lambda post: c_req(v0 * v0 + nx * nx * T.mk_inv(de) * T.mk_inv(de), 1), "the reflector is orthogonal")
    c.ensures(lambda post: c_req(a - 2 * v0 * (v0 * a + vx), be), "the first component becomes beta")
    c.ensures(lambda post: c_req(1 - 2 * (v0 * a + vx) * T.mk_inv(de), 0), "the other components become zero")


def singletons(c, *zs):
    for z in zs:
        c.requires(c_and(c_eq(z.rows, 1), c_eq(z.cols, 1)), "one element")


def put3(c, a11, x, tau):
    def put(a, v, t):
        if a is not None:
            c.write(a11, lambda i, j: a)
        if v is not None:
            c.writev(x, v)
        c.write(tau, lambda i, j: t)
    return put


HSRC = "lapack/house.c"


def gen_house(case, rnd):
    n = rnd.choice([0, 1, 1, 2, 3, 4, 5, 8])
    if "a11" not in case["args"]:
        n += 1
    x = mkmat(rnd, 1, n) if rnd.random() < 0.5 else mkmat(rnd, n, 1)
    if rnd.random() < 0.2:
        x["data"] = [[0] * len(r) for r in x["data"]]
    case["args"].update(x=x, tau=mkmat(rnd, 1, 1))
    if "a11" in case["args"]:
        case["args"]["a11"] = mkmat(rnd, 1, 1)
    if "flags" in case["args"]:
        case["args"]["flags"]["value"] = flagval(rnd, [0, UNIT], [0, NONNEG], [0, HHNEG])


for key, scaled in (("internal_householder", True), ("hhcompute_unscaled", False)):
    def _spec(c, scaled=scaled):
        singletons(c, c.a11, c.tau)
        c.ret(0)
        (house_spec if scaled else unscaled_spec)(c, c.a11(0, 0), c.x.n, c.x, c.flags, put3(c, c.a11, c.x, c.tau))
    contract(HSRC + ":" + key, HSRC, "a11:mat x:vec tau:mat flags:flags conf:confnn", prop="C16", opts={"gen": gen_house, "cost": 7, "split": 2})(_spec)


@contract("armas_house", HSRC, "a11:mat x:vec tau:mat flags:flags conf:conf", prop="C16", opts={"gen": gen_house, "cost": 7, "split": 2})
def _(c):
    singletons(c, c.a11, c.tau)
    c.ret(0)
    f = house_spec if c.flag(c.flags, UNIT) else unscaled_spec
    f(c, c.a11(0, 0), c.x.n, c.x, c.flags, put3(c, c.a11, c.x, c.tau))


@contract("armas_compute_householder", HSRC, "a11:mat x:vec tau:mat conf:confnn", prop="C16", opts={"gen": gen_house})
def _(c):
    singletons(c, c.a11, c.tau)
    house_spec(c, c.a11(0, 0), c.x.n, c.x, c.optflags(), put3(c, c.a11, c.x, c.tau), False)


def put_vec(c, x, tau, at, sh):
    """the vector holds both the first element (at index at) and the rest"""
    def put(a, v, t):
        if a is not None:
            c.writev(x, lambda i: a, lambda i: c_eq(i, at))
        if v is not None:
            c.writev(x, lambda i: v(i - sh), lambda i: c_not(c_eq(i, at)))
        c.write(tau, lambda i, j: t)
    return put


@contract("armas_house_vec", HSRC, "x:vec tau:mat flags:flags conf:conf", prop="C16", opts={"gen": gen_house, "cost": 8, "split": 4})
def _(c):
    singletons(c, c.tau)
    x = c.x
    c.requires(c_ge(x.n, 1))
    c.ret(0)
    f = house_spec if c.flag(c.flags, UNIT) else unscaled_spec
    f(c, x(0), x.n - 1, lambda k: x(k + 1), c.flags, put_vec(c, x, c.tau, 0, 1))


for key, rev in (("armas_compute_householder_vec", False), ("armas_compute_householder_rev", True)):
    def _spec(c, rev=rev):
        x = c.x
        singletons(c, c.tau)
        if c.decide(c_eq(x.n, 0)):
            return c.write(c.tau, lambda i, j: T.ZERO)
        at = x.n - 1 if rev else T.ZERO
        sh = 0 if rev else 1
        house_spec(c, x(at), x.n - 1, lambda k: x(k + sh), c.optflags(), put_vec(c, x, c.tau, at, sh), False)
    contract(key, HSRC, "x:vec tau:mat conf:confnn", prop="C16", opts={"gen": gen_house, "cost": 7, "split": 3})(_spec)
