"""Element access, views of a matrix and partitioning (matrix.h, partition.h).
These inline functions keep their bodies at calls (leaf); here each is proved
against its own contract."""
from .lib import *

MH = "base/matrix.c"


def leaf(name, params, prop="C01", src=MH, **kw):
    kw["leaf"] = True
    return contract(name, src, params, prop=prop, opts=kw)


def isnull(B):
    return B is NULL


def end(c, i, n):
    """index i counted from the end when negative"""
    return i + n if c.decide(c_lt(i, 0)) else i


def in_range(c, i, n):
    c.requires(c_and(c_ge(i, -n), c_lt(i, n)), "index inside the matrix")


# ------------------------------------------------------------------ queries
@leaf("armas_size", "m:mat?")
def _(c):
    c.ret(0 if isnull(c.m) else c.m.rows * c.m.cols)


@leaf("armas_isvector", "m:mat?")
def _(c):
    c.ret(1 if not isnull(c.m) and c.decide(c.m.isvec()) else 0)


@leaf("armas_index_valid", "m:mat? ix:int")
def _(c):
    if isnull(c.m):
        return c.ret(0)
    n = c.m.rows * c.m.cols
    c.ret(1 if c.decide(c_ge(c.ix, -n)) and c.decide(c_lt(c.ix, n)) else 0)


@leaf("armas_data", "m:mat?")
def _(c):
    if isnull(c.m):
        c.ret(NULL)


for nm, safe in (("armas_index", True), ("armas_index_unsafe", False)):
    def _spec(c, safe=safe):
        m = c.m
        if isnull(m):
            return c.ret(0)
        r, k = c.row, c.col
        if safe:
            if c.decide(c_eq(m.size, 0)):
                return c.ret(0)
            in_range(c, r, m.rows)
            in_range(c, k, m.cols)
            r, k = end(c, r, m.rows), end(c, k, m.cols)
        c.ret(r + k * m.step)
    leaf(nm, "m:mat? row:int col:int")(_spec)


@leaf("armas_real_index", "m:mat ix:nat")
def _(c):
    # vectors and matrices without gaps between columns
    m = c.m
    if c.decide(c_eq(m.cols, 1)):
        return c.ret(c.ix)
    if c.decide(c_eq(m.rows, 1)):
        return c.ret(c.ix * m.step)
    c.requires(c_eq(m.step, m.rows))
    c.ret(c.ix)


# ------------------------------------------------------------ element access
for nm, safe in (("armas_get", True), ("armas_get_unsafe", False)):
    def _spec(c, safe=safe):
        m, r, k = c.m, c.row, c.col
        if safe:
            if isnull(m) or c.decide(c_eq(m.size, 0)):
                return c.ret(0)
            in_range(c, r, m.rows)
            in_range(c, k, m.cols)
            r, k = end(c, r, m.rows), end(c, k, m.cols)
        else:
            c.requires(c_and(c_ge(r, 0), c_lt(r, m.rows), c_ge(k, 0), c_lt(k, m.cols)))
        c.ret(m(r, k))
    leaf(nm, "m:mat%s row:int col:int" % ("?" if safe else ""))(_spec)

for nm, safe in (("armas_set", True), ("armas_set_unsafe", False)):
    def _spec(c, safe=safe):
        m, r, k = c.m, c.row, c.col
        if safe:
            if isnull(m) or c.decide(c_eq(m.size, 0)):
                return
            in_range(c, r, m.rows)
            in_range(c, k, m.cols)
            r, k = end(c, r, m.rows), end(c, k, m.cols)
        else:
            c.requires(c_and(c_ge(r, 0), c_lt(r, m.rows), c_ge(k, 0), c_lt(k, m.cols)))
        c.write(m, lambda i, j: c.val_, lambda i, j: c_and(c_eq(i, r), c_eq(j, k)))
    leaf(nm, "m:mat%s row:int col:int val_:real" % ("?" if safe else ""))(_spec)

for nm, safe in (("armas_get_at", True), ("armas_get_at_unsafe", False)):
    def _spec(c, safe=safe):
        m, i = c.m, c.ix
        if safe:
            if c.decide(c_eq(m.size, 0)):
                return c.ret(0)
            in_range(c, i, m.n)
            i = end(c, i, m.n)
        else:
            c.requires(c_and(c_ge(i, 0), c_lt(i, m.n)))
        c.ret(m(i))
    leaf(nm, "m:vec ix:int")(_spec)

for nm, safe in (("armas_set_at", True), ("armas_set_at_unsafe", False)):
    def _spec(c, safe=safe):
        m, i = c.m, c.ix
        if safe:
            if c.decide(c_eq(m.size, 0)):
                return
            in_range(c, i, m.n)
            i = end(c, i, m.n)
        else:
            c.requires(c_and(c_ge(i, 0), c_lt(i, m.n)))
        c.writev(m, lambda k: c.val_, lambda k: c_eq(k, i))
    leaf(nm, "m:vec ix:int val_:real")(_spec)


# -------------------------------------------------------------------- views
@leaf("armas_zero", "A:view")
def _(c):
    c.zeroview(c.A)


def empty_source(c, A, B):
    if isnull(B) or c.decide(c_eq(B.size, 0)):
        c.zeroview(A)
        c.ret(NULL)
        return True
    return False


for nm, byrow, safe in (("armas_column", 0, 1), ("armas_column_unsafe", 0, 0), ("armas_row", 1, 1), ("armas_row_unsafe", 1, 0)):
    def _spec(c, byrow=byrow, safe=safe):
        B, k = c.B, c.k
        if safe:
            if empty_source(c, c.A, B):
                return
            n = B.rows if byrow else B.cols
            in_range(c, k, n)
            k = end(c, k, n)
        else:
            c.requires(c_and(c_ge(k, 0), c_lt(k, B.rows if byrow else B.cols)))
        if byrow:
            c.setview(c.A, B, k, 0, 1, B.cols)
        else:
            c.setview(c.A, B, 0, k, B.rows, 1)
        c.ret(c.A)
    leaf(nm, "A:view B:mat%s k:int" % ("?" if safe else ""))(_spec)


def subm(c, step=None):
    A, B = c.A, c.B
    if empty_source(c, A, B):
        return
    r, k, nr, nc = c.r, c.k, c.nr, c.nc
    c.requires(c_and(c_ge(r, -B.rows), c_le(r, B.rows), c_ge(k, -B.cols), c_le(k, B.cols)))
    r, k = end(c, r, B.rows), end(c, k, B.cols)
    if c.decide(c_lt(nr, 0)):
        nr = B.rows - r
    if c.decide(c_lt(nc, 0)):
        nc = B.cols - k
    c.requires(c_and(c_le(r + nr, B.rows), c_le(k + nc, B.cols)), "the block lies inside the matrix")
    if step is not None and c.decide(c_lt(step, 0)):
        step = None
    c.setview(A, B, r, k, nr, nc, step)
    c.ret(A)


@leaf("armas_submatrix", "A:view B:mat r:int k:int nr:int nc:int")
def _(c):
    subm(c)


@leaf("armas_submatrix_ext", "A:view B:mat? r:int k:int nr:int nc:int st:int")
def _(c):
    subm(c, c.st)


@leaf("armas_submatrix_unsafe", "A:view B:mat r:nat k:nat nr:int nc:int")
def _(c):
    c.setview(c.A, c.B, c.r, c.k, c.nr, c.nc)
    c.ret(c.A)


@leaf("armas_subvector_unsafe", "X:view Y:vec n:nat len:int")
def _(c):
    if c.Y.isrow():
        c.setview(c.X, c.Y, 0, c.n, 1, c.len)
    else:
        c.setview(c.X, c.Y, c.n, 0, c.len, 1)
    c.ret(c.X)


@leaf("armas_subvector", "X:view Y:mat n:int len:int")
def _(c):
    Y, n, ln = c.Y, c.n, c.len
    c.ret(c.X)
    if not c.decide(Y.isvec()):
        return c.zeroview(c.X, ("rows", "cols"))
    if c.decide(c_eq(Y.size, 0)):
        return c.zeroview(c.X)
    c.requires(c_and(c_ge(n, -Y.n), c_le(n, Y.n)))
    n = end(c, n, Y.n)
    if c.decide(c_lt(ln, 0)):
        ln = Y.n - n
    c.requires(c_le(n + ln, Y.n))
    if Y.isrow():
        c.setview(c.X, Y, 0, n, 1, ln)
    else:
        c.setview(c.X, Y, n, 0, ln, 1)


for nm, safe in (("armas_diag", 1), ("armas_diag_unsafe", 0)):
    def _spec(c, safe=safe):
        A, B, k = c.A, c.B, c.k
        if safe and c.decide(c_eq(B.size, 0)):
            c.zeroview(A)
            c.ret(NULL)
            return
        c.requires(c_and(c_gt(k, -B.rows), c_lt(k, B.cols)), "the diagonal meets the matrix")
        r, j = T.ZERO, T.ZERO
        if c.decide(c_gt(k, 0)):
            j = k
        elif c.decide(c_lt(k, 0)):
            r = -k
        nk = B.rows - r if c.decide(c_lt(B.rows - r, B.cols - j)) else B.cols - j
        c.setview(A, B, r, j, 1, nk, B.step + 1)
        c.ret(A)
    leaf(nm, "A:view B:mat k:int")(_spec)


@leaf("armas_make", "m:view r:int c:int s:int B:ptr(r,c,ld=s)")
def _(c):
    p = c.m
    c.retfree = True
    if getattr(c, "concrete", False):
        raise ValueError("header only")
    for f, v in (("rows", c.r), ("cols", c.args["c"]), ("step", c.s), ("elems", c.B.ptr), ("__data", NULL), ("__nbytes", T.ZERO)):
        c.sets.append((p.obj, p.path + (f,), v))


@leaf("armas_col_as_row", "row:view col:vec(col)")
def _(c):
    c.setview(c.row, c.col, 0, 0, 1, c.col.n, 1)
    c.ret(c.row)


# -------------------------------------------------------------- partitioning
PTOP, PBOTTOM, PLEFT, PRIGHT, PTOPLEFT, PBOTTOMRIGHT = range(6)
PH = "base/partition.c"


def part(name, params, **kw):
    return leaf(name, params, prop="C02", src=PH, **kw)


def tile(c, M, blocks, rs, cs):
    """blocks of M between the given cuts of its rows and columns"""
    for a in range(len(rs) - 1):
        for b in range(len(cs) - 1):
            v = blocks[a * (len(cs) - 1) + b]
            if v is not None:
                c.setview(v, M, rs[a], cs[b], rs[a + 1] - rs[a], cs[b + 1] - cs[b])


def smaller(c, x, y):
    return x if c.decide(c_le(x, y)) else y


# name prefix, source kind, along the rows?
for fn, kind, rows in (("mat_partition_2x1", "mat", 1), ("mat_partition_1x2", "mat", 0), ("vec_partition_2x1", "vec", None)):
    def _spec(c, rows=rows):
        A = c.A
        byrow = rows if rows is not None else (not A.isrow())
        n = A.rows if byrow else A.cols
        nb = smaller(c, c.nb, n)
        first = c.decide(c_eq(c.side, PLEFT if rows == 0 else PTOP))
        other = [T.ZERO, A.cols if byrow else A.rows]
        cut = [T.ZERO, nb if first else n - nb, n]
        tile(c, A, [c.A1, c.A2], cut if byrow else other, other if byrow else cut)
    part(fn, "A1:view A2:view A:%s nb:nat side:int" % kind)(_spec)

for fn, kind, rows in (("mat_repartition_2x1to3x1", "mat", 1), ("mat_repartition_1x2to1x3", "mat", 0),
                       ("vec_repartition_2x1to3x1", "vec", None)):
    def _spec(c, rows=rows):
        A, AT = c.A, c.AT
        byrow = rows if rows is not None else (not A.isrow())
        n = A.rows if byrow else A.cols
        if rows is None:
            # the orientation of the part follows its parent
            t = AT.rows if byrow else AT.cols
            c.requires(c_eq(AT.cols if byrow else AT.rows, 1))
        else:
            t = AT.rows if byrow else AT.cols
        c.requires(c_le(t, n))
        # direction away from the start grows the first part
        if rows == 0:
            back = c.decide(c_eq(c.dir, PLEFT))
        else:
            back = not c.decide(c_eq(c.dir, PBOTTOM))
        other = [T.ZERO, A.cols if byrow else A.rows]
        if back:
            nb = smaller(c, c.nb, t)
            cut = [T.ZERO, t - nb, t, n]
        else:
            nb = smaller(c, c.nb, n - t)
            cut = [T.ZERO, t, t + nb, n]
        tile(c, A, [c.A0, c.A1, c.A2], cut if byrow else other, other if byrow else cut)
    part(fn, "AT:mat A0:view A1:view A2:view A:%s nb:nat dir:int" % kind)(_spec)

for fn, kind, rows in (("mat_continue_3x1to2x1", "mat", 1), ("mat_continue_1x3to1x2", "mat", 0), ("vec_continue_3x1to2x1", "vec", None)):
    def _spec(c, rows=rows):
        A = c.A
        byrow = rows if rows is not None else (not A.isrow())
        n = A.rows if byrow else A.cols
        for v in (c.A0, c.A1):
            if rows is None:
                c.requires(c_eq(v.cols if byrow else v.rows, 1))
        n0 = c.A0.rows if byrow else c.A0.cols
        n1 = c.A1.rows if byrow else c.A1.cols
        c.requires(c_le(n0 + n1, n))
        if rows == 0:
            c.requires(c_or(c_eq(c.dir, PLEFT), c_eq(c.dir, PRIGHT)))
            fwd = c.decide(c_eq(c.dir, PRIGHT))
        else:
            fwd = c.decide(c_eq(c.dir, PBOTTOM))
        t = n0 + n1 if fwd else n0
        other = [T.ZERO, A.cols if byrow else A.rows]
        cut = [T.ZERO, t, n]
        tile(c, A, [c.AT, c.AB], cut if byrow else other, other if byrow else cut)
    part(fn, "AT:view AB:view A0:mat A1:mat A:%s dir:int" % kind)(_spec)


@part("mat_partition_2x2", "ATL:view ATR:view? ABL:view? ABR:view A:mat mb:nat nb:nat side:int")
def _(c):
    A, mb, nb = c.A, c.mb, c.nb
    c.requires(c_and(c_le(mb, A.rows), c_le(nb, A.cols)))
    first = c.decide(c_eq(c.side, PTOPLEFT))
    tile(c, A, [c.ATL, c.ATR, c.ABL, c.ABR],
         [T.ZERO, mb if first else A.rows - mb, A.rows], [T.ZERO, nb if first else A.cols - nb, A.cols])


@part("mat_repartition_2x2to3x3", "ATL:mat A00:view A01:view? A02:view? A10:view? A11:view A12:view? A20:view? A21:view? A22:view"
      " A:mat nb:nat dir:int", cost=30)
def _(c):
    A, r, k = c.A, c.ATL.rows, c.ATL.cols
    c.requires(c_and(c_le(r, A.rows), c_le(k, A.cols)))
    bl = [c.A00, c.A01, c.A02, c.A10, c.A11, c.A12, c.A20, c.A21, c.A22]
    if c.decide(c_eq(c.dir, PBOTTOMRIGHT)):
        nb = smaller(c, smaller(c, c.nb, A.cols - k), A.rows - r)
        tile(c, A, bl, [T.ZERO, r, r + nb, A.rows], [T.ZERO, k, k + nb, A.cols])
    else:
        nb = smaller(c, smaller(c, c.nb, k), r)
        tile(c, A, bl, [T.ZERO, r - nb, r, A.rows], [T.ZERO, k - nb, k, A.cols])


# its object name, from float64/names_base.h
@part("mat_continue_2x3to2x2", "ATL:view ATR:view? ABL:view? ABR:view A00:mat A11:mat A22:mat A:mat dir:int")
def _(c):
    A, r, k, n = c.A, c.A00.rows, c.A00.cols, c.A11.cols
    c.requires(c_and(c_eq(c.A11.rows, n), c_le(r + n, A.rows), c_le(k + n, A.cols)))
    if c.decide(c_eq(c.dir, PBOTTOMRIGHT)):
        r, k = r + n, k + n
    tile(c, A, [c.ATL, c.ATR, c.ABL, c.ABR], [T.ZERO, r, A.rows], [T.ZERO, k, A.cols])


for fn, byrow in (("mat_merge2x1", 1), ("mat_merge1x2", 0)):
    def _spec(c, byrow=byrow):
        # A1 and A2 are adjacent parts of one matrix
        A, B, M = c.A1, c.A2, c.M
        c.requires(c_eq(A.step, B.step))
        if c.decide(c_eq(A.size, 0)):
            if c.decide(c_eq(B.size, 0)):
                c.zeroview(M, ("rows", "cols"))
                if not getattr(c, "concrete", False):
                    c.sets.append((M.obj, M.path + ("step",), A.step))
                return
            return c.setview(M, B, 0, 0, B.rows, B.cols)
        if c.decide(c_eq(B.size, 0)):
            return c.setview(M, A, 0, 0, A.rows, A.cols)
        if byrow:
            c.requires(c_eq(A.cols, B.cols))
            c.setview(M, A, 0, 0, A.rows + B.rows, A.cols)
        else:
            c.requires(c_eq(A.rows, B.rows))
            c.setview(M, A, 0, 0, A.rows, A.cols + B.cols)
    part(fn, "M:view A1:mat A2:mat")(_spec)
