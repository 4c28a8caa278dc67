"""Interchanges of rows and columns: base/pivot.c.
What an array of pivots does is told step by step: state(k)(i, j) is the content
after the first k interchanges, state(0) is what there was, and state(k + 1) is
state(k) with one pair of rows, of columns, or of both interchanged."""
import ctypes
import random
from .lib import *
from vc import symex as S
from vc.symex import OPtr, DPtr, RState
from vc.compare import Comparer
from vc.contract import make_matrix, SpecCtx
from vc.sweep import sweeps, forks

FORWARD, BACKWARD, ROWS, COLS, PUPPER, PLOWER = 0, 1, 2, 4, 8, 16
SRC = "base/pivot.c"


def mk_pivot(X, st, p, d):
    s = st.copy()
    n = T.sym(p.name + ".npivots")
    reg = "M." + p.name
    X.region(reg, ld=None, rows=n, cols=T.ONE, label=p.name, sort='i', esize=4)
    s.mem[reg] = RState(p.name)
    s.assume(c_ge(n, 0))
    s.objs[p.name] = {("npivots",): n, ("indexes",): DPtr(reg, T.ZERO), ("owner",): T.sym(p.name + ".owner")}
    yield OPtr(p.name), s


MKP = {"pivot": mk_pivot}


class Steps:
    """the contents of A under the interchanges of P"""

    def __init__(self, c, A, P, kind, fwd):
        self.c, self.A, self.kind, self.fwd = c, A, kind, fwd
        self.n = c.val(P, ("npivots",))
        ix = c.val(P, ("indexes",))
        X, st = c._X, c._st
        self.pbase = X.snapshot(st, ix.reg)
        self.poff = ix.off
        self.size = A.cols if kind == "cols" else A.rows

    def pivot(self, k):
        """the pair interchanged in step k, or None"""
        q = k if self.fwd else self.n - 1 - k
        r = k if self.fwd else self.size - 1 - k
        n = T.rd(self.pbase, self.poff + q, T.ZERO, 'i')
        if not self.c.decide(c_and(c_ge(n, 1), c_le(n, self.size))):
            return None
        return n - 1, r

    def state(self, base, k, i, j):
        A = self.A
        return T.uf("pivoted.%s.%s:%s:%s" % (self.kind, "forward" if self.fwd else "backward", base, self.pbase),
                    (K(k), K(i), K(j), A.r0, A.c0, A.rows, A.cols, self.poff, self.n), 'r')

    def same(self, o):
        A, B = self.A, o.A
        return (self.kind == o.kind and self.fwd == o.fwd and self.pbase == o.pbase
                and all(self.c.decide_quiet(c_eq(x, y)) is True for x, y in
                        ((self.poff, o.poff), (self.n, o.n), (A.r0, B.r0), (A.c0, B.c0), (A.rows, B.rows), (A.cols, B.cols))))

    def write(self, base, k):
        w = {"lower": lambda i, j: c_ge(i, j), "upper": lambda i, j: c_le(i, j)}.get(self.kind)
        self.c.write(self.A, lambda i, j: self.state(base, k, i, j), w)

    def unfold(self, base, k):
        """step k done: state(k + 1) in terms of state(k)"""
        self.write(base, k)
        pq = self.pivot(k)
        if pq is None or self.c.decide(c_eq(pq[0], pq[1])):
            return
        p, q = pq
        g = lambda i, j: self.state(base, k, i, j)
        W = self.c.write
        if self.kind == "rows":
            W(self.A, lambda i, j: g(q, j), lambda i, j: c_eq(i, p))
            W(self.A, lambda i, j: g(p, j), lambda i, j: c_eq(i, q))
        elif self.kind == "cols":
            W(self.A, lambda i, j: g(i, q), lambda i, j: c_eq(j, p))
            W(self.A, lambda i, j: g(i, p), lambda i, j: c_eq(j, q))
        else:
            if not self.c.decide(c_lt(p, q)):
                p, q = q, p
            self.sym(g, p, q)

    def sym(self, g, p, q):
        """rows and columns p < q of a symmetric matrix of which one triangle is kept"""
        low = self.kind == "lower"
        G = g if low else lambda i, j: g(j, i)

        def W(f, where):
            if low:
                self.c.write(self.A, f, where)
            else:
                self.c.write(self.A, lambda i, j: f(j, i), lambda i, j: where(j, i))
        # elements (i, j), i >= j, one index of which is p or q
        W(lambda i, j: G(q, j), lambda i, j: c_and(c_eq(i, p), c_lt(j, p)))
        W(lambda i, j: G(p, j), lambda i, j: c_and(c_eq(i, q), c_lt(j, p)))
        W(lambda i, j: G(q, i), lambda i, j: c_and(c_eq(j, p), c_gt(i, p), c_lt(i, q)))
        W(lambda i, j: G(j, p), lambda i, j: c_and(c_eq(i, q), c_gt(j, p), c_lt(j, q)))
        W(lambda i, j: G(i, q), lambda i, j: c_and(c_eq(j, p), c_gt(i, q)))
        W(lambda i, j: G(i, p), lambda i, j: c_and(c_eq(j, q), c_gt(i, q)))
        W(lambda i, j: G(q, q), lambda i, j: c_and(c_eq(i, p), c_eq(j, p)))
        W(lambda i, j: G(p, p), lambda i, j: c_and(c_eq(i, q), c_eq(j, q)))


def pivoted(c, A, P, kind, fwd):
    """the postcondition: all interchanges done"""
    s = Steps(c, A, P, kind, fwd)
    if c.decide(c_eq(s.n, 0)):
        return
    known = c._st.objs.get("$pivoted", {}).get(A.reg)
    if known and s.same(known[0]):
        c.given(A, known[1])
        c.write(A, known[2])
        return
    s.write(c._X.snapshot(c._st, A.reg), s.n)


def effects(kindof):
    def f(c, ks, n):
        kind, fwd = kindof(c)
        A = c.view(OPtr("A"), "A")
        s = Steps(c, A, OPtr("P"), kind, fwd)
        k = ks[-1]
        if c.phase == 'start':
            c.write(A, lambda i, j: T.rd("A", A.cell(i, j)[0], A.cell(i, j)[1], 'r'))
        elif c.phase == 'at':
            s.write("A", k)
        else:
            s.unfold("A", k - 1)
    return f


def swap_lines(c, A, src, dst, cols):
    n = A.cols if cols else A.rows
    if not c.decide(c_and(c_lt(src, n), c_lt(dst, n))):
        return
    a = lambda k, t: A(t, k) if cols else A(k, t)
    c.write(A, lambda i, j: a(dst, i if cols else j), lambda i, j: c_eq(j if cols else i, src))
    c.write(A, lambda i, j: a(src, i if cols else j), lambda i, j: c_eq(j if cols else i, dst))


for cols in (False, True):
    @contract(":swap_cols" if cols else ":swap_rows", SRC, "A:mat src:nat dst:nat conf:confnn", prop="C13")
    def _(c, cols=cols):
        swap_lines(c, c.A, c.src, c.dst, cols)


for low in (True, False):
    @contract(":apply_pivot_lower" if low else ":apply_pivot_upper", SRC, "A:mat srcix:nat dstix:nat conf:confnn", prop="C13")
    def _(c, low=low):
        A = c.A
        c.requires(c_and(c_eq(A.rows, A.cols), c_lt(c.srcix, A.rows), c_lt(c.dstix, A.rows)), "rows of a square matrix")
        if c.decide(c_eq(c.srcix, c.dstix)):
            return
        p, q = (c.srcix, c.dstix) if c.decide(c_lt(c.srcix, c.dstix)) else (c.dstix, c.srcix)
        s = Steps.__new__(Steps)
        s.c, s.A, s.kind = c, A, "lower" if low else "upper"
        s.sym(lambda i, j: A(i, j), p, q)


def isfwd(c, f):
    return not c.decide(f.nonzero() if isinstance(f, S.Flags) else c_not(c_eq(f, 0)))


for kind in ("rows", "cols"):
    fn = "apply_row_pivots" if kind == "rows" else "apply_col_pivots"

    @contract(":" + fn, SRC, "A:mat P:pivot dir:int conf:confnn", prop="C13",
              opts={"argmakers": MKP, "invariants": {fn: sweeps(effects(lambda c, kind=kind: (kind, isfwd(c, T.sym("dir")))))}})
    def _(c, kind=kind):
        A = c.A
        c.requires(c_le(c.val(c.P, ("npivots",)), A.cols if kind == "cols" else A.rows), "not more pivots than rows")
        if c.decide(c_eq(A.rows if kind == "cols" else A.cols, 0)):
            return
        pivoted(c, A, c.P, kind, isfwd(c, c.dir))


# ------------------------------------------------- search for a failing input
class Dense(ctypes.Structure):
    _fields_ = [("elems", ctypes.c_void_p), ("step", ctypes.c_int), ("rows", ctypes.c_int), ("cols", ctypes.c_int),
                ("data", ctypes.c_void_p), ("nbytes", ctypes.c_int)]


class Pivot(ctypes.Structure):
    _fields_ = [("npivots", ctypes.c_int), ("indexes", ctypes.c_void_p), ("owner", ctypes.c_int)]


def gen(fn):
    def g(rnd):
        n = lambda: rnd.choice([0, 1, 2, 3, 4, 5, 7, 9])
        flags = rnd.choice([0, ROWS, COLS, PUPPER, PLOWER]) if fn == "pivot" else 0
        m, k = n(), n()
        if flags in (PUPPER, PLOWER):
            k = m
        lim = k if flags == COLS or fn == "pivot_cols" else m
        np = lim if rnd.random() < 0.5 else rnd.randint(0, lim + 1)
        valid = flags in (PUPPER, PLOWER) or rnd.random() < 0.6
        piv = [rnd.randint(1, max(lim, 1)) if valid else rnd.randint(-2, lim + 2) for _ in range(np)]
        if flags in (PUPPER, PLOWER) and np > lim:
            piv = piv[:lim]
        return {"fn": fn, "rows": m, "cols": k, "flags": flags | rnd.choice([0, 1]), "pivots": piv, "ld": m + rnd.randint(0 if m else 1, 3)}
    return g


def drive(R, case):
    """every interchange done by hand"""
    vp, dbl = ctypes.c_void_p, ctypes.c_double
    m, n, ld, piv, f = case["rows"], case["cols"], case["ld"], case["pivots"], case["flags"]
    a = (dbl * (ld * n + 1))(*[i + 0.5 for i in range(ld * n + 1)])
    p = (ctypes.c_int * (len(piv) + 1))(*(piv + [1]))
    A = Dense(ctypes.addressof(a), ld, m, n, None, 0)
    P = Pivot(len(piv), ctypes.addressof(p), 0)
    e = list(a)
    fwd, kind = not f & 1, {COLS: "cols", PUPPER: "upper", PLOWER: "lower"}.get(f & ~1, "rows")
    if case["fn"] != "pivot":
        kind = case["fn"][6:]
    size = n if kind == "cols" else m
    fails = size < len(piv)
    if not fails:
        at = lambda i, j: i + j * ld

        def sw(x, y):
            e[x], e[y] = e[y], e[x]
        for k in range(len(piv)) if fwd else reversed(range(len(piv))):
            q = k if fwd else size - len(piv) + k
            t = piv[k] - 1
            if not 0 <= t < size or t == q:
                continue
            t, q = min(t, q), max(t, q)
            if kind == "rows":
                for j in range(n):
                    sw(at(t, j), at(q, j))
            elif kind == "cols":
                for i in range(m):
                    sw(at(i, t), at(i, q))
            else:
                c = at if kind == "lower" else lambda i, j: at(j, i)
                for j in range(t):
                    sw(c(t, j), c(q, j))
                for j in range(t + 1, q):
                    sw(c(j, t), c(q, j))
                for i in range(q + 1, m):
                    sw(c(i, t), c(i, q))
                sw(c(t, t), c(q, q))
    fn = getattr(R.lib, "armas_d_" + case["fn"])
    fn.restype = ctypes.c_int
    rc = fn(ctypes.byref(A), ctypes.byref(P), f, None)
    if fails:
        return None if rc < 0 and list(a) == e else "armas_%s: too many pivots: returns %d" % (case["fn"], rc)
    if rc != 0:
        return "armas_%s returns %d" % (case["fn"], rc)
    for i, (u, v) in enumerate(zip(a, e)):
        if u != v:
            return "armas_%s: element %d of the storage is %r, expected %r" % (case["fn"], i, u, v)
    if list(p) != piv + [1]:
        return "armas_%s changes the pivots" % case["fn"]
    return None


def lemma(X):
    """one interchange done twice leaves everything as it was; so the steps of
    one direction undo those of the other, last first, when there are as many
    pivots as rows"""
    for kind in ("rows", "cols", "lower", "upper"):
        st = S.State()
        A = make_matrix(X, st, "L", T.sym("L.rows"), T.sym("L.cols"))
        p, q = T.sym("L.p"), T.sym("L.q")
        size = A.cols if kind == "cols" else A.rows
        for f in (c_ge(p, 0), c_ge(q, 0), c_lt(p, size), c_lt(q, size)):
            st.assume(f)
        if kind in ("lower", "upper"):
            st.assume(c_eq(A.rows, A.cols))
            st.assume(c_lt(p, q))
        pre = st.mem[A.reg]

        def once(s):
            c = SpecCtx(X, s, 'apply', {})
            v = c.view(OPtr("L"), "L")
            t = Steps.__new__(Steps)
            t.c, t.A, t.kind = c, v, kind
            if kind in ("rows", "cols"):
                swap_lines(c, v, p, q, kind == "cols")
            else:
                t.sym(lambda i, j: v(i, j), p, q)
            before = s.mem[v.reg]
            for w, g, val in c.effects:
                g, val = s.cnorm(g), s.norm(val)
                if g is not False:
                    X._add_update(s, w.reg, g, val)
            return before
        for e, _ in forks(X, st, once):
            for e2, _ in forks(X, e, once):
                Comparer(X).regions(e2, A.reg, e2.mem[A.reg], pre, "lemma", "an interchange of %s done twice restores the matrix" % kind)


for kind in ("rows", "cols"):
    @contract("armas_pivot_" + kind, SRC, "A:mat P:pivot flags:int conf:conf", prop="C13",
              opts={"argmakers": MKP, "driver": (gen("pivot_" + kind), drive),
                    "invariants": {"armas_pivot_" + kind: sweeps(effects(lambda c, kind=kind: (kind, isfwd(c, T.sym("flags")))))}})
    def _(c, kind=kind):
        A = c.A
        c.ret(0)
        if c.decide(c_lt(A.cols if kind == "cols" else A.rows, c.val(c.P, ("npivots",)))):
            c.ret(-1)
            return
        if c.decide(c_eq(A.rows if kind == "cols" else A.cols, 0)):
            return
        pivoted(c, A, c.P, kind, isfwd(c, c.flags))


def kind_of(c, f):
    fwd = not c.flag(f, BACKWARD)
    for k, v in (("upper", PUPPER), ("lower", PLOWER), ("cols", COLS)):
        if c.flagsel(f, 0xffffffff & ~1, v):
            return k, fwd
    return "rows", fwd


@contract("armas_pivot", SRC, "A:mat P:pivot flags:flags conf:conf", prop="C13",
          opts={"argmakers": MKP, "driver": (gen("pivot"), drive), "lemma": lemma, "invariants": {"armas_pivot": sweeps(effects(lambda c: kind_of(c, S.Flags("flags"))))}})
def _(c):
    A = c.A
    kind, fwd = kind_of(c, c.flags)
    n = c.val(c.P, ("npivots",))
    c.ret(0)
    if kind in ("upper", "lower"):
        c.requires(c_eq(A.rows, A.cols), "a symmetric matrix is square")
    if c.decide(c_lt(A.cols if kind == "cols" else A.rows, n)):
        fail(c, ESIZE, -1)
        return
    if kind in ("upper", "lower"):
        c.requires_each(c.val(c.P, ("indexes",)).reg, T.ONE, A.rows, "every pivot is the number of a row")
    elif c.decide(c_eq(A.rows if kind == "cols" else A.cols, 0)):
        return
    pivoted(c, A, c.P, kind, fwd)




# ------------------------------------------------- parts of an array of pivots
def mk_pnull(X, st, p, d):
    yield NULL, st.copy()
    yield from mk_pivot(X, st, p, d)


def mk_pview(X, st, p, d):
    s = st.copy()
    s.objs[p.name] = {}
    yield OPtr(p.name), s


MKV = {"pivot": mk_pivot, "pnull": mk_pnull, "pview": mk_pview}
PTOP, PBOTTOM = 0, 1


def size(c, P):
    return c.val(P, ("npivots",))


def part(c, dst, P, lo, n):
    ix = c.val(P, ("indexes",))
    c.set(dst.obj, dst.path + ("npivots",), n)
    c.set(dst.obj, dst.path + ("indexes",), DPtr(ix.reg, ix.off + lo))
    c.set(dst.obj, dst.path + ("owner",), T.ZERO)


def accessor(name, params, f, **kw):
    return contract(name, SRC, params, prop="C13", opts=dict({"argmakers": MKV, "leaf": True}, **kw))(f)


def _size(c):
    c.ret(T.ZERO if c.P is NULL else size(c, c.P))


def _get(c):
    if c.P is NULL or not c.decide(c_and(c_ge(c.k, 0), c_lt(c.k, size(c, c.P)))):
        c.ret(T.ZERO)
        return
    ix = c.val(c.P, ("indexes",))
    c.ret(T.rd(c._X.snapshot(c._st, ix.reg), ix.off + c.k, T.ZERO, 'i'))


def _get_unsafe(c):
    c.requires(c_and(c_ge(c.k, 0), c_lt(c.k, size(c, c.P))), "one of the pivots")
    _get(c)


def _set(c):
    if c.P is NULL or not c.decide(c_and(c_ge(c.k, 0), c_lt(c.k, size(c, c.P)))):
        return
    ix = c.val(c.P, ("indexes",))
    c.write(View(c, "P", ix.reg, ix.off, T.ZERO, size(c, c.P), T.ONE), lambda i, j: c.val_, lambda i, j: c_eq(i, c.k))


def _set_unsafe(c):
    c.requires(c_and(c_ge(c.k, 0), c_lt(c.k, size(c, c.P))), "one of the pivots")
    _set(c)


accessor("armas_pivot_size", "P:pnull", _size)
accessor("armas_pivot_get", "P:pnull k:int", _get)
accessor("armas_pivot_get_unsafe", "P:pivot k:int", _get_unsafe)
accessor("armas_pivot_set", "P:pnull k:int val_:int", _set)
accessor("armas_pivot_set_unsafe", "P:pivot k:int val_:int", _set_unsafe)


def _make(c):
    c.set(c.ptable.obj, c.ptable.path + ("npivots",), c.sz)
    c.set(c.ptable.obj, c.ptable.path + ("owner",), T.ZERO)
    c.set(c.ptable.obj, c.ptable.path + ("indexes",), c.data)
    c.ret(c.ptable)


def _sub(c):
    c.requires(c_and(c_ge(c.k_, 0), c_ge(c.n, 0), c_le(c.k_ + c.n, size(c, c.pB))), "a part of the pivots")
    part(c, c.pA, c.pB, c.k_, c.n)


def _2x1(c):
    n = size(c, c.P)
    nb = c.nb
    if c.decide(c_eq(c.side, PTOP)):
        if c.decide(c_gt(nb, n)):
            nb = n
    else:
        c.requires(c_eq(c.side, PBOTTOM), "from the top or from the bottom")
        c.requires(c_le(nb, n), "the block is there")
        nb = n - nb
    part(c, c.pT, c.P, T.ZERO, nb)
    part(c, c.pB, c.P, nb, n - nb)


def _repart(c):
    n, nT, nb = size(c, c.P), size(c, c.pT), c.nb
    c.requires(c_le(nT, n), "the first part lies in the whole")
    lo = nT
    if c.decide(c_eq(c.direction, PBOTTOM)):
        if c.decide(c_gt(nT + nb, n)):
            nb = n - nT
    else:
        c.requires(c_eq(c.direction, PTOP), "to the top or to the bottom")
        if c.decide(c_gt(nb, nT)):
            nb = nT
        lo = nT - nb
    part(c, c.p0, c.P, T.ZERO, lo)
    part(c, c.p1, c.P, lo, nb)
    part(c, c.p2, c.P, lo + nb, n - lo - nb)


def _cont(c):
    n, n0, n1 = size(c, c.P), size(c, c.p0), size(c, c.p1)
    c.requires(c_le(n0 + n1, n), "the parts lie in the whole")
    lo = n0 + n1
    if not c.decide(c_eq(c.direction, PBOTTOM)):
        c.requires(c_eq(c.direction, PTOP), "to the top or to the bottom")
        lo = n0
    part(c, c.pT, c.P, T.ZERO, lo)
    part(c, c.pB, c.P, lo, n - lo)


accessor("armas_pivot_make", "ptable:pview sz:nat data:opaque", _make)
accessor(":subpivot", "pA:pview pB:pivot k_:int n:int", _sub)
accessor(":pivot_2x1", "pT:pview pB:pview P:pivot nb:nat side:int", _2x1)
accessor(":pivot_repart_2x1to3x1", "pT:pivot p0:pview p1:pview p2:pview P:pivot nb:nat direction:int", _repart)
accessor(":pivot_cont_3x1to2x1", "pT:pview pB:pview p0:pivot p1:pivot P:pivot direction:int", _cont)
