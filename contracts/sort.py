"""Ordering of vectors, and of the matrices that go with them (C14)."""
from vc.contract import contract
from vc.term import *
from vc import term as T
from vc import quant
from .lib import *

INV = quant.handler(quant.family())


def near(case, rnd):
    """sizes that go together, keys with ties"""
    a = case["args"]
    D = a["D"]
    n = rnd.choice([0, 1, 2, 3, 4, 5, 8])
    D["rows"], D["cols"] = rnd.choice([(1, n), (n, 1)])
    for nm in "UVC":
        if a[nm]["kind"] == "null":
            continue
        k = rnd.choice([1, 2, 3, n])
        m = n + rnd.choice([0, 0, 1, 3])
        a[nm]["rows"], a[nm]["cols"] = (k, m) if nm != "V" else (m, k)
    for m in a.values():
        if m["kind"] == "mat":
            m["step"] = max(1, m["rows"]) + rnd.choice([0, 0, 1, 3])
            w = 3 if m is D else 50
            m["data"] = [[rnd.randint(-w, w) for _ in range(m["cols"])] for _ in range(m["rows"])]


def inv(*fns):
    return {f: INV for f in fns}


def goes_up(c):
    return c.decide(c_gt(c.updown, 0))


@contract("armas_sort_vec", "lapack/sort.c", "D:vec updown:int", prop="C14", opts={"invariants": inv("armas_sort_vec")})
def _(c):
    c.reorder(c.D, goes_up(c))


@contract("armas_abs_sort_vec", "lapack/sort.c", "D:vec updown:int", prop="C14", opts={"invariants": inv("armas_abs_sort_vec")})
def _(c):
    c.reorder(c.D, goes_up(c), "abs")


@contract(":vec_minmax", "lapack/sort.c", "D:vec updown:int", prop="C14", opts={"invariants": inv("vec_minmax")})
def _(c):
    c.requires(c_ge(c.D.size, 1), "there is an element")
    c.best(c.D, goes_up(c))


for _fn, _up in (("armas_isort_asc", True), ("armas_isort_desc", False)):
    def _isort(c, up=_up):
        c.reorder(c.x, up)
    contract(":" + _fn, "lapack/qsort.c", "x:vec", prop="C14", opts={"invariants": inv(_fn)})(_isort)

for _fn, _up in (("armas_qsort_asc", True), ("armas_qsort_desc", False)):
    def _qsort(c, up=_up):
        c.decreases(c.x.size)
        c.reorder(c.x, up)
    contract(":" + _fn, "lapack/qsort.c", "x:vec", prop="C14", opts={"invariants": inv(_fn)})(_qsort)


@contract(":vec_abs_minmax", "lapack/sort.c", "D:vec minmax:int", prop="C14", opts={"invariants": inv("vec_abs_minmax")})
def _(c):
    c.requires(c_ge(c.D.size, 1), "there is an element")
    c.best(c.D, c.decide(c_gt(c.minmax, 0)), "abs")


@contract("armas_qsort_vec", "lapack/qsort.c", "D:mat updown:int", prop="C14", opts={"invariants": inv("armas_qsort_vec")})
def _(c):
    if not c.decide(c.D.isvec()):
        c.ret(-ENEED_VECTOR)
        return
    c.ret(0)
    c.reorder(c.D, goes_up(c))


@contract("armas_sort_eigenvec", "lapack/sort.c", "D:mat U:mat? V:mat? C:mat? updown:int", prop="C14",
          opts={"invariants": inv("armas_sort_eigenvec"), "cost": 9, "split": 8, "gen": near})
def _(c):
    if not c.decide(c.D.isvec()):
        c.ret(-ENEED_VECTOR)
        return
    c.requires(c_not(c_eq(c.updown, 0)), "a direction is given")
    c.ret(0)
    U, V, C_ = c.U, c.V, c.C
    n = c.D.n
    others = []
    if U is not NULL:
        c.requires(c_ge(U.cols, n), "a column for each key")
        others.append(("col", U))
    if V is not NULL:
        c.requires(c_ge(V.rows, n), "a row for each key")
        others.append(("row", V))
    if C_ is not NULL:
        if c.decide(C_.isvec()):
            c.requires(c_ge(C_.n, n), "an element for each key")
            others.append(("elem", C_))
        else:
            c.requires(c_ge(C_.cols, n), "a column for each key")
            others.append(("col", C_))
    if not others:
        c.reorder(c.D, goes_up(c))
    else:
        c.together(c.D, goes_up(c), others)
