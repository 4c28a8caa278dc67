"""Symmetric and triangular matrix-matrix operations."""
from .lib import *
from vc.concrete import mkmat
from .gemm import gemm_shape, op
from .tri import one_triangle

OTHER = TRANSB | CTRANSA | CTRANSB | ABSA | ABSB


def plain(c, f, mask=OTHER):
    """options the operation does not have are not asked for"""
    c.requires(not c.flag(f, mask), "only options of the operation are set")


def left_right(c, f):
    l, r = c.flag(f, LEFT), c.flag(f, RIGHT)
    c.requires(not (l and r), "one side is named")
    return r


# ------------------------------------------------------------ inputs for the search of a failing input
def mm(rnd, t, r, c):
    return mkmat(rnd, c, r) if t else mkmat(rnd, r, c)


def gen_sym(case, rnd):
    d = sizes(rnd, case)
    m, n = d(), d()
    f = flagval(rnd, [LOWER, UPPER], [LEFT, RIGHT, 0], [0, TRANSB])
    k = n if f & RIGHT else m
    case["args"].update(C=mkmat(rnd, m, n), A=mkmat(rnd, k, k), B=mm(rnd, f & TRANSB, m, n))
    case["args"]["flags"]["value"] = f


def gen_upd(case, rnd):
    d = sizes(rnd, case)
    m, k = d(), d()
    n = m if rnd.random() < 0.5 or "trm" not in case["fn"] else d()
    f = flagval(rnd, [LOWER, UPPER], [0, TRANSA], [0, TRANSB] if "trm" in case["fn"] else [0])
    case["args"].update(C=mkmat(rnd, m, n), A=mm(rnd, f & TRANSA, m, k))
    if "B" in case["args"]:
        case["args"]["B"] = mm(rnd, f & TRANSB, k, n) if "trm" in case["fn"] else mm(rnd, f & TRANSA, m, k)
    case["args"]["flags"]["value"] = f


def gen_tri(case, rnd):
    d = sizes(rnd, case)
    m, n = d(), d()
    f = flagval(rnd, [LOWER, UPPER], [LEFT, RIGHT, 0], [0, TRANS], [0, UNIT])
    A, B = mkmat(rnd, m, m, True), (mkmat(rnd, n, m) if f & RIGHT else mkmat(rnd, m, n))
    for i in range(m):
        A["data"][i][i] = rnd.choice([1, -1, 2, -2, 3])
    if "ghost" in case["args"]["B"]:
        B["ghost"] = [[rnd.randint(-4, 4) for _ in range(B["cols"])] for _ in range(B["rows"])]
    case["args"].update(A=A, B=B)
    case["args"]["flags"]["value"] = f


# ------------------------------------------------------------ symmetric multiply
def symm_shape(C, A, B, right, tb):
    br, bc = (B.cols, B.rows) if tb else (B.rows, B.cols)
    return c_and(c_eq(A.rows, A.cols), c_eq(C.rows, br), c_eq(C.cols, bc), c_eq(A.rows, C.cols if right else C.rows))


def symm(c, beta, C, alpha, A, B, right, upper, tb, where=None):
    b = (lambda i, j: B(j, i)) if tb else (lambda i, j: B(i, j))
    # A(i,k) of the symmetric matrix, summed below and from the diagonal
    n = A.rows
    if right:
        f = lambda i, j: (c.sum(0, j, lambda k: b(i, k) * (A(k, j) if upper else A(j, k)))
                          + c.sum(j, n, lambda k: b(i, k) * (A(j, k) if upper else A(k, j))))
    else:
        f = lambda i, j: (c.sum(0, i, lambda k: (A(k, i) if upper else A(i, k)) * b(k, j))
                          + c.sum(i, n, lambda k: (A(i, k) if upper else A(k, i)) * b(k, j)))
    c.write(C, lambda i, j: beta * C(i, j) + alpha * f(i, j), where)


for nm, up in (("colcpy_fill_low", 1), ("colcpy_fill_up", 0)):
    def _spec(c, up=up):
        c.requires(c_and(c_ge(c.nR, 0), c_eq(c.nR, c.nC)))
        S, D = c.src, c.dst
        c.requires(c_eq(c.unit, 0), "the matrix is not of unit diagonal")
        c.write(D, lambda i, j: S(i, j), (lambda i, j: c_le(i, j)) if up else (lambda i, j: c_ge(i, j)))
        c.write(D, lambda i, j: S(j, i), (lambda i, j: c_gt(i, j)) if up else (lambda i, j: c_lt(i, j)))
    contract(":" + nm, "blas/symm.c", "dst:ptr(nR,nC,ld=ldD) ldD:int src:ptr(nR,nC,ld=ldS) ldS:int nR:int nC:int unit:int", prop="C09")(_spec)


@contract(":mult_symm_diag", "blas/symm.c", "C:mat alpha:real A:mat B:mat flags:flags cache:cache", prop="C09", opts={"nosearch": True})
def _(c):
    C, A, B = c.C, c.A, c.B
    right, upper, tb = left_right(c, c.flags), one_triangle(c, c.flags), c.flag(c.flags, TRANSB)
    plain(c, c.flags, UNIT | TRANSA | CTRANSA | CTRANSB | ABSA | ABSB)
    c.requires(symm_shape(C, A, B, right, tb), "operand shapes agree")
    f = c.scratch(c.cache)
    c.requires(c_and(c_le(A.rows, f["KB"]), c_le(C.rows, f["MB"]), c_le(C.cols, f["NB"])), "the operands fit the packing blocks")
    symm(c, T.ONE, C, c.alpha, A, B, right, upper, tb)


for nm in (":armas_mult_symm_left", ":armas_mult_symm_right", "armas_mult_sym_unsafe"):
    def _spec(c, nm=nm):
        C, A, B = c.C, c.A, c.B
        right, upper, tb = left_right(c, c.flags), one_triangle(c, c.flags), c.flag(c.flags, TRANSB)
        if "left" in nm:
            c.requires(not right)
        if "right" in nm:
            c.requires(right)
        plain(c, c.flags, UNIT | TRANSA | CTRANSA | CTRANSB | ABSA | ABSB)
        c.requires(c_eq(c.K if "unsafe" in nm else c.P, 0), "the first block is meant")
        c.requires(symm_shape(C, A, B, right, tb), "operand shapes agree")
        ca = c.cache if "unsafe" in nm else c.mcache
        c.scratch(ca)
        symm(c, c.beta, C, c.alpha, A, B, right, upper, tb)
    contract(nm, "blas/symm.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags " + ("K:int cache:cache" if "unsafe" in nm else "P:int mcache:cache"),
             prop="C09", opts={"nosearch": True, "split": 1 if "unsafe" in nm else 4, "cost": 9})(_spec)


@contract("armas_mult_sym", "blas/symm.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags conf:conf", prop="C09", opts={"gen": gen_sym})
def _(c):
    C, A, B = c.C, c.A, c.B
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0), c_eq(C.size, 0))):
        return
    right, tb = left_right(c, c.flags), c.flag(c.flags, TRANSB)
    plain(c, c.flags, UNIT | TRANSA | CTRANSA | CTRANSB | ABSA | ABSB)
    if not c.decide(symm_shape(C, A, B, right, tb)):
        return fail(c, ESIZE)
    upper = one_triangle(c, c.flags)
    if c.decide(c.nobuffer()):
        return fail(c, EMEMORY)
    symm(c, c.beta, C, c.alpha, A, B, right, upper, tb)


# ------------------------------------------------------------ rank-k updates
def updtrm(c, beta, C, alpha, A, B, upper, ta, tb):
    a = (lambda i, k: A(k, i)) if ta else (lambda i, k: A(i, k))
    b = (lambda k, j: B(j, k)) if tb else (lambda k, j: B(k, j))
    c.write(C, lambda i, j: beta * C(i, j) + alpha * c.sum(0, A.rows if ta else A.cols, lambda k: a(i, k) * b(k, j)),
            (lambda i, j: c_le(i, j)) if upper else (lambda i, j: c_ge(i, j)))


for nm in ("update_trm_naive", "update_upper_recursive", "update_lower_recursive", "update_trm_blk"):
    def _spec(c, nm=nm):
        C, A, B = c.C, c.A, c.B
        upper, ta, tb = one_triangle(c, c.flags), c.flag(c.flags, TRANSA), c.flag(c.flags, TRANSB)
        if "upper" in nm:
            c.requires(upper)
        if "lower" in nm:
            c.requires(not upper)
        plain(c, c.flags, CTRANSA | CTRANSB | ABSA | ABSB)
        c.requires(gemm_shape(C, A, B, ta, tb), "operand shapes agree")
        c.requires(c_ge(A.rows if ta else A.cols, 1))
        if nm != "update_trm_naive":
            c.scratch(c.cache)
        if "recursive" in nm:
            c.decreases(C.rows + C.cols)
        updtrm(c, c.beta, C, c.alpha, A, B, upper, ta, tb)
    contract(":" + nm, "blas/updtrmm.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags" + ("" if "naive" in nm else " min_mblock_size:int cache:cache"),
             prop="C09", opts={"nosearch": True})(_spec)


@contract("armas_update_trm", "blas/updtrmm.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags conf:conf", prop="C09", opts={"gen": gen_upd})
def _(c):
    C, A, B = c.C, c.A, c.B
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0), c_eq(C.size, 0))):
        return
    ta, tb = c.flag(c.flags, TRANSA), c.flag(c.flags, TRANSB)
    plain(c, c.flags, CTRANSA | CTRANSB | ABSA | ABSB)
    if not c.decide(gemm_shape(C, A, B, ta, tb)):
        return fail(c, ESIZE)
    upper = one_triangle(c, c.flags)
    if not c.flag(c.optflags(), ONAIVE) and c.decide(c.nobuffer()):
        return fail(c, EMEMORY)
    updtrm(c, c.beta, C, c.alpha, A, B, upper, ta, tb)


@contract("armas_update_sym", "blas/syrk.c", "beta:real C:mat alpha:real A:mat flags:flags conf:conf", prop="C09", opts={"gen": gen_upd})
def _(c):
    C, A = c.C, c.A
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(C.size, 0))):
        return
    t = c.flag(c.flags, TRANS)
    if not c.decide(c_and(c_eq(C.rows, A.cols if t else A.rows), c_eq(C.rows, C.cols))):
        return fail(c, ESIZE)
    upper = one_triangle(c, c.flags)
    if not c.flag(c.optflags(), ONAIVE) and c.decide(c.nobuffer()):
        return fail(c, EMEMORY)
    a = (lambda i, k: A(k, i)) if t else (lambda i, k: A(i, k))
    c.write(C, lambda i, j: c.beta * C(i, j) + c.alpha * c.sum(0, A.rows if t else A.cols, lambda k: a(i, k) * a(j, k)),
            (lambda i, j: c_le(i, j)) if upper else (lambda i, j: c_ge(i, j)))


def syr2k(c, beta, A, alpha, X, Y, upper, t):
    x = (lambda i, k: X(k, i)) if t else (lambda i, k: X(i, k))
    y = (lambda i, k: Y(k, i)) if t else (lambda i, k: Y(i, k))
    n = X.rows if t else X.cols
    c.write(A, lambda i, j: beta * A(i, j) + alpha * c.sum(0, n, lambda k: x(i, k) * y(j, k)) + alpha * c.sum(0, n, lambda k: y(i, k) * x(j, k)),
            (lambda i, j: c_le(i, j)) if upper else (lambda i, j: c_ge(i, j)))


for nm in ("update_syr2k_unb", "update_syr2k_recursive", "update_syr2k_trans_unb", "update_syr2k_trans_recursive"):
    def _spec(c, nm=nm):
        t = "trans" in nm
        upper = one_triangle(c, c.flags)
        A, X, Y = c.A, c.X, c.Y
        c.requires(c_and(c_eq(A.rows, A.cols), c_eq(X.rows, Y.rows), c_eq(X.cols, Y.cols), c_eq(A.rows, X.cols if t else X.rows)))
        c.requires(c_ge(X.rows if t else X.cols, 1))
        if "recursive" in nm:
            c.scratch(c.cache)
            c.decreases(A.rows)
        syr2k(c, c.beta, A, c.alpha, X, Y, upper, t)
    contract(":" + nm, "blas/syr2k.c", "beta:real A:mat alpha:real X:mat Y:mat flags:flags" + (" minblock:int cache:cache" if "rec" in nm else ""),
             prop="C09", opts={"nosearch": True})(_spec)


@contract("armas_update2_sym", "blas/syr2k.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags conf:conf", prop="C09", opts={"gen": gen_upd})
def _(c):
    C, A, B = c.C, c.A, c.B
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0), c_eq(C.size, 0))):
        return
    t = c.flag(c.flags, TRANS)
    if not c.decide(c_and(c_eq(A.rows, B.rows), c_eq(A.cols, B.cols), c_eq(C.rows, C.cols), c_eq(C.rows, A.cols if t else A.rows))):
        c.error(ESIZE)
        return c.ret(("cond", lambda rv: c_lt(rv, 0)))
    upper = one_triangle(c, c.flags)
    if not c.flag(c.optflags(), ONAIVE) and c.decide(c.nobuffer()):
        return fail(c, EMEMORY)
    syr2k(c, c.beta, C, c.alpha, A, B, upper, t)


# ------------------------------------------------------------ triangular multiply and solve
def tri_mm(c, A, B, i, j, right, upper, trans, unit):
    """(op(T) B)(i,j), or (B op(T))(i,j) from the right"""
    u = 1 if unit else 0
    a = (lambda p, q: A(q, p)) if trans else (lambda p, q: A(p, q))
    up = upper != trans             # is op(T) upper triangular?
    n = A.cols
    if right:
        f, m, above = (lambda k: B(i, k) * a(k, j)), j, not up
    else:
        f, m, above = (lambda k: a(i, k) * B(k, j)), i, up
    s = c.sum(m + u, n, f) if above else c.sum(0, m + (1 - u), f)
    return s + B(i, j) if unit else s


def trm_shape(A, B, right):
    return c_and(c_eq(A.rows, A.cols), c_eq(A.rows, B.cols if right else B.rows))


def trmm(c, B, alpha, A, right, upper, trans, unit, where=None):
    c.write(B, lambda i, j: alpha * tri_mm(c, A, B, i, j, right, upper, trans, unit), where)


def trsm(c, B, alpha, A, right, upper, trans, unit, where=None):
    Y = c.ghost(B)
    if not unit:
        c.nonzero(A.cols, lambda i: A(i, i), "the diagonal of A")
    c.given(B, lambda i, j: tri_mm(c, A, Y, i, j, right, upper, trans, unit), alpha, where)
    c.write(B, lambda i, j: Y(i, j), where)


def triflags(c, f):
    """(right, upper, trans, unit)"""
    right, upper = left_right(c, f), one_triangle(c, f)
    plain(c, f)
    return right, upper, c.flag(f, TRANS), c.flag(f, UNIT)


for which, what in (("trmm", trmm), ("trsm", trsm)):
    pre = "trmm_unb" if which == "trmm" else "solve_unblk"
    for nm in ("lu", "lut", "ll", "llt", "ru", "rut", "rl", "rlt"):
        def _spec(c, nm=nm, what=what, which=which):
            right, upper, trans = nm[0] == "r", nm[1] == "u", nm.endswith("t")
            unit = c.decide(T.c_not(c_eq(c.unit, 0))) if which == "trmm" else c.flag(c.flags, UNIT)
            c.requires(c_and(trm_shape(c.A, c.B, right), c_ge(c.A.rows, 1)))
            what(c, c.B, c.alpha, c.A, right, upper, trans, unit)
        contract(":%s_%s" % (pre, nm), "blas/%s_unb.c" % which, "B:mat A:mat alpha:real " + ("unit:int" if which == "trmm" else "flags:flags"), prop="C09")(_spec)

    m = "mult" if which == "trmm" else "solve"
    blk = (("upper", "u_trans", "lower", "l_trans", "r_upper", "ru_trans", "r_lower", "rl_trans") if which == "trmm"
           else ("lu_llt", "lut_ll", "ru_rlt", "rut_rl"))
    fns = ([("armas_%s_unb" % ("trmm" if which == "trmm" else "solve"), "unb", "B:mat alpha:real A:mat flags:flags")]
           + [(":%s_%s_%s" % (m, s, d), "rec", "B:mat alpha:real A:mat flags:flags min_mblock_size:int cache:cache") for s in ("left", "right") for d in ("forward", "backward")]
           + [("armas_%s_recursive" % ("trmm" if which == "trmm" else "solve"), "rec", "B:mat alpha:real A:mat flags:flags mcache:cache")]
           + [(":%s_blk_%s" % ("trmm" if which == "trmm" else "solve", b), "blk", "B:mat A:mat alpha:real flags:flags cache:cache") for b in blk]
           + [("armas_trmm_blk" if which == "trmm" else "armas_solver_blocked", "blk", "B:mat alpha:real A:mat flags:flags mcache:cache"),
              ("armas_%s_trm_unsafe" % m, "", "B:mat alpha:real A:mat flags:flags cache:cache")])
    for nm, part, ps in fns:
        def _spec(c, nm=nm, part=part, what=what, which=which):
            right, upper, trans, unit = triflags(c, c.flags)
            b = nm.split("_blk_")[1] if "_blk_" in nm else None
            if "left" in nm or "right" in nm:
                c.requires(right == ("right" in nm))
                # which half is dealt with first
                fw = "forward" in nm
                c.requires((upper != trans) == ((fw if not right else not fw) if which == "trmm" else (not fw if not right else fw)))
            if b and which == "trmm":
                c.requires(right == (b[0] == "r") and trans == ("trans" in b) and upper == (b in ("upper", "u_trans", "r_upper", "ru_trans")))
            elif b:
                c.requires(right == (b[0] == "r") and (upper != trans) == (b in ("lu_llt", "ru_rlt")))
            c.requires(c_and(trm_shape(c.A, c.B, right), c_ge(c.A.rows, 1)), "operand shapes agree")
            if part != "unb":
                c.scratch(c.mcache if "mcache" in c.args else c.cache)
            if nm[0] == ":" and part == "rec":
                c.decreases(c.A.cols)
            what(c, c.B, c.alpha, c.A, right, upper, trans, unit)
        contract(nm, "blas/%s%s.c" % (which, "_" + part if part else ""), ps, prop="C09",
                 opts={"nosearch": True} if part != "unb" else {})(_spec)

    def _spec(c, what=what):
        A, B = c.A, c.B
        c.ret(0)
        if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0))):
            return
        right = left_right(c, c.flags)
        if not c.decide(trm_shape(A, B, right)):
            return fail(c, ESIZE)
        right, upper, trans, unit = triflags(c, c.flags)
        if not c.flag(c.optflags(), ONAIVE) and c.decide(c.nobuffer()):
            return fail(c, EMEMORY)
        what(c, B, c.alpha, A, right, upper, trans, unit)
    contract("armas_%s_trm" % m, "blas/%s.c" % which, "B:mat alpha:real A:mat flags:flags conf:conf", prop="C09", opts={"gen": gen_tri})(_spec)
