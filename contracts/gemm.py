"""Matrix-matrix multiply and its kernels."""
from .lib import *
from vc.concrete import mkmat

# ---------------------------------------------------------- micro kernels
# nI x nJ elements of C get alpha times inner products of packed columns
for nI, nJ in ((1, 1), (1, 2), (2, 2), (1, 4), (2, 4), (1, 6), (2, 6)):
    def _spec(c, nI=nI, nJ=nJ):
        c.requires(c_ge(c.nR, 0))
        for j in range(nJ):
            Cj = c.c if nJ == 1 else getattr(c, "c%d" % j)
            bj = c.b if nJ == 1 else getattr(c, "b%d" % j)
            for i in range(nI):
                ai = c.a if nI == 1 else getattr(c, "a%d" % i)
                c.write(Cj, lambda r, q, Cj=Cj: Cj(r, q) + c.alpha * c.sum(0, c.nR, lambda k: ai(k, 0) * bj(k, 0)),
                        lambda r, q, i=i: c_eq(r, i))
    cs = ["c%d:ptr(%d)" % (j, nI) for j in range(nJ)] if nJ > 1 else ["c:ptr(%d)" % nI]
    as_ = ["a%d:ptr(nR,pad=4)" % i for i in range(nI)] if nI > 1 else ["a:ptr(nR,pad=4)"]
    bs = ["b%d:ptr(nR,pad=4)" % j for j in range(nJ)] if nJ > 1 else ["b:ptr(nR,pad=4)"]
    contract(":__mult%dc%d" % (nI, nJ), "blas/kernel.c", " ".join(cs + as_ + bs) + " alpha:real nR:int", prop="C08")(_spec)

# rows [0, nI) of a strip of columns of C get A^T B of the packed operands
for nm, nJ in (("__CMULT1", 1), ("__CMULT2", 2), ("__CMULT4", 4)):
    def _spec(c, nJ=nJ):
        c.requires(c_and(c_ge(c.nP, 0), c_ge(c.nI, 0), c_ge(c.col, 0), c_le(c.col + nJ, c.C.cols), c_le(c.nI, c.C.rows),
                         c_eq(c.nP, c.A.rows), c_eq(c.nP, c.B.rows), c_le(c.nI, c.A.cols), c_le(c.col + nJ, c.B.cols)))
        c.write(c.C, lambda i, j: c.C(i, j) + c.alpha * c.sum(0, c.nP, lambda k: c.A(k, i) * c.B(k, j)),
                lambda i, j: c_and(c_lt(i, c.nI), c_ge(j, c.col), c_lt(j, c.col + nJ)))
    contract(":" + nm, "blas/kernel.c", "C:mat A:mat(pad=4) B:mat(pad=4) alpha:real col:int nI:int nP:int", prop="C08")(_spec)

# ------------------------------------------------------ packing of operands
for src, prop in (("blas/kernel.c", "C08"), ("blas/symm.c", "C09")):
    for nm, tr, ab in (("copy_plain_mcpy1", 0, 0), ("copy_plain_abs", 0, 1), ("copy_trans1x4", 1, 0), ("copy_trans4x1", 1, 0),
                       ("copy_trans1x4_abs", 1, 1), ("copy_trans4x1_abs", 1, 1)):
        def _spec(c, tr=tr, ab=ab):
            a = absr if ab else (lambda v: v)
            c.requires(c_and(c_ge(c.nR, 0), c_ge(c.nC, 0)))
            c.write(c.d, (lambda i, j: a(c.s(j, i))) if tr else (lambda i, j: a(c.s(i, j))))
        contract(":" + nm, src, "d:ptr(%s,ld=ldD) ldD:int s:ptr(nR,nC,ld=ldS) ldS:int nR:int nC:int" % ("nC,nR" if tr else "nR,nC"), prop=prop)(_spec)

    for nm, tr in (("CPBLK", 0), ("CPBLK_TRANS", 1)):
        def _spec(c, tr=tr):
            a = absr if c.flag(c.flags, ABSA | ABSB) else (lambda v: v)
            c.requires(c_and(c_ge(c.nR, 0), c_ge(c.nC, 0), c_eq(c.s.rows, c.nR), c_eq(c.s.cols, c.nC)))
            if tr:
                c.requires(c_and(c_eq(c.d.rows, c.nC), c_eq(c.d.cols, c.nR)))
                c.write(c.d, lambda i, j: a(c.s(j, i)))
            else:
                c.requires(c_and(c_eq(c.d.rows, c.nR), c_eq(c.d.cols, c.nC)))
                c.write(c.d, lambda i, j: a(c.s(i, j)))
        contract(":" + nm, src, "d:mat s:mat nR:int nC:int flags:flags", prop=prop)(_spec)


@contract(":blk_scale", "blas/kernel.c", "x:mat beta:real M:int N:int", prop="C08")
def _(c):
    c.requires(c_and(c_eq(c.M, c.x.rows), c_eq(c.N, c.x.cols)))
    c.write(c.x, lambda i, j: c.beta * c.x(i, j))


@contract("armas_mult_kernel_inner", "blas/kernel.c", "Cblk:mat alpha:real Ablk:mat(pad=4) Bblk:mat(pad=4) rb:pos", prop="C08", opts={"nosearch": True})
def _(c):
    C, A, B = c.Cblk, c.Ablk, c.Bblk
    c.requires(c_and(c_eq(C.rows, A.cols), c_eq(C.cols, B.cols), c_eq(A.rows, B.rows), c_ge(c.rb, 1)))
    c.write(C, lambda i, j: C(i, j) + c.alpha * c.sum(0, A.rows, lambda k: A(k, i) * B(k, j)))


def op(c, f, which):
    """is operand A (0) or B (1) transposed?"""
    return c.flag(f, TRANSA | CTRANSA if which == 0 else TRANSB | CTRANSB)


def gemm_shape(C, A, B, ta, tb):
    m, p = (A.cols, A.rows) if ta else (A.rows, A.cols)
    q, n = (B.cols, B.rows) if tb else (B.rows, B.cols)
    return c_and(c_eq(C.rows, m), c_eq(C.cols, n), c_eq(p, q))


def gemm(c, beta, C, alpha, A, B, ta, tb, ab, where=None):
    a = absr if ab else (lambda v: v)
    x = (lambda i, k: a(A(k, i))) if ta else (lambda i, k: a(A(i, k)))
    y = (lambda k, j: a(B(j, k))) if tb else (lambda k, j: a(B(k, j)))
    c.write(C, lambda i, j: beta * C(i, j) + alpha * c.sum(0, A.rows if ta else A.cols, lambda k: x(i, k) * y(k, j)), where)


for nm in ("armas_mult_kernel", "armas_mult_kernel_nc"):
    def _spec(c, nm=nm):
        ta, tb = op(c, c.flags, 0), op(c, c.flags, 1)
        m, n, p = c.C.rows, c.C.cols, c.A.rows if ta else c.A.cols
        if ta:
            c.extent(c.A, p, m, ("cols",))
        else:
            c.extent(c.A, m, p, ("rows",))
        if tb:
            c.extent(c.B, n, p, ("rows", "cols"))
        else:
            c.extent(c.B, p, n, ("rows", "cols"))
        ab = c.flag(c.flags, ABSA | ABSB)
        c.scratch(c.cache)
        gemm(c, T.ONE if nm.endswith("nc") else c.beta, c.C, c.alpha, c.A, c.B, ta, tb, ab)
        c.ret(0)
    contract(nm, "blas/kernel.c", ("" if nm.endswith("nc") else "beta:real ") + "C:mat alpha:real A:mat B:mat flags:flags cache:cache", prop="C08", opts={"nosearch": True, "split": 3, "cost": 8})(_spec)


def gen_gemm(case, rnd):
    d = sizes(rnd, case)
    m, n, k = d(), d(), d()
    f = flagval(rnd, [0, TRANSA, CTRANSA], [0, TRANSB, CTRANSB], [0, 0, ABSA, ABSB, ABSA | ABSB])
    mm = lambda t, r, q: mkmat(rnd, q, r) if t else mkmat(rnd, r, q)
    case["args"].update(C=mkmat(rnd, m, n), A=mm(f & (TRANSA | CTRANSA), m, k), B=mm(f & (TRANSB | CTRANSB), k, n))
    case["args"]["flags"]["value"] = f


@contract("armas_mult", "blas/gemm.c", "beta:real C:mat alpha:real A:mat B:mat flags:flags conf:conf", prop="C08", opts={"gen": gen_gemm})
def _(c):
    C, A, B = c.C, c.A, c.B
    c.ret(0)
    if c.decide(c_or(c_eq(A.size, 0), c_eq(B.size, 0), c_eq(C.size, 0))):
        return
    ta, tb = op(c, c.flags, 0), op(c, c.flags, 1)
    c.requires(not (c.flag(c.flags, TRANSA) and c.flag(c.flags, CTRANSA)) and not (c.flag(c.flags, TRANSB) and c.flag(c.flags, CTRANSB)),
               "an operand is transposed one way")
    if not c.decide(gemm_shape(C, A, B, ta, tb)):
        return fail(c, ESIZE)
    if c.decide(c.nobuffer()):
        return fail(c, EMEMORY)
    gemm(c, c.beta, C, c.alpha, A, B, ta, tb, c.flag(c.flags, ABSA | ABSB))
