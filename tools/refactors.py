"""Behaviour-preserving rewrites of the code under contract (self-test of the
checks: every one of these must leave every check quiet).

R(id, checks, file, edits...): an edit is fn(name, text) (replace a whole
function definition, from its `static`/type line to its closing brace) or
ed(old, new) (exactly one occurrence, or n= occurrences).
"""
import re

ALL = []


def fn(name, text, file=None):
    return ("fn", name, text, file)


def ed(old, new, n=1, file=None):
    return ("ed", old, new, n, file)


def R(id, checks, file, *edits):
    ALL.append((id, checks.split(), file, edits))


def apply(text, e):
    if e[0] == "ed":
        assert text.count(e[1]) == e[3], (e[1], text.count(e[1]))
        return text.replace(e[1], e[2])
    name = e[1]
    for m in re.finditer(r"^[^\n;{}#]*\b%s\s*\(" % re.escape(name), text, re.M):
        # a definition: the matching ) is followed by {
        k, d = m.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(text[k], 0)
            k += 1
        m2 = re.match(r"\s*\{", text[k:])
        if not m2:
            continue
        b = k + m2.end()
        d = 1
        while d:
            d += {"{": 1, "}": -1}.get(text[b], 0)
            b += 1
        st = m.start()
        # qualifiers / return type on the lines above
        while True:
            prev = text[:st].rstrip("\n").rsplit("\n", 1)[-1]
            if re.match(r"^(static|inline|static inline|__ARMAS_INLINE|int|void|DTYPE|ABSTYPE|armas_dense_t \*|static inline __attribute__.*)\s*$", prev):
                st = text[:st].rstrip("\n").rfind("\n") + 1
            else:
                break
        return text[:st] + e[2].strip("\n") + text[b:]
    raise KeyError(name)


# ---------------------------------------------------------------- vectors
R("swap-while", "C03", "src/blas/swap.c", fn("vec_swap", """
static
void vec_swap(armas_dense_t * X, armas_dense_t * Y, int N)
{
    double t;
    int yinc = Y->rows == 1 ? Y->step : 1;
    int xinc = X->rows == 1 ? X->step : 1;
    DTYPE *xp = X->elems, *yp = Y->elems;
    int left = N;

    while (left > 0) {
        t = *yp;
        *yp = *xp;
        *xp = t;
        xp += xinc;
        yp += yinc;
        left--;
    }
}
"""))
R("swap-helper", "C03", "src/blas/swap.c", fn("vec_swap", """
static inline
void swap_one(DTYPE *a, DTYPE *b)
{
    DTYPE tmp = *a;
    *a = *b;
    *b = tmp;
}

static
void vec_swap(armas_dense_t * X, armas_dense_t * Y, int N)
{
    int i, kx = 0, ky = 0;
    const int yinc = Y->rows == 1 ? Y->step : 1;
    const int xinc = X->rows == 1 ? X->step : 1;

    for (i = 0; i + 4 <= N; i += 4) {
        swap_one(&X->elems[kx], &Y->elems[ky]);
        swap_one(&X->elems[kx + xinc], &Y->elems[ky + yinc]);
        swap_one(&X->elems[kx + 2 * xinc], &Y->elems[ky + 2 * yinc]);
        swap_one(&X->elems[kx + 3 * xinc], &Y->elems[ky + 3 * yinc]);
        kx += 4 * xinc;
        ky += 4 * yinc;
    }
    for (; i < N; i++) {
        swap_one(&X->elems[kx], &Y->elems[ky]);
        kx += xinc;
        ky += yinc;
    }
}
"""))
R("copy-down", "C03 C05", "src/blas/mcopy.c", fn("vector_copy", """
static
void vector_copy(armas_dense_t *X,  const armas_dense_t *Y, int N)
{
    int yinc = (Y->rows == 1) ? Y->step : 1;
    int xinc = (X->rows == 1) ? X->step : 1;
    int i = N;
    while (--i >= 0) {
        X->elems[i*xinc] = Y->elems[i*yinc];
    }
}
"""))
R("axpby-inc", "C03", "src/blas/axpy.c",
  ed("""        kx += xinc; ky += yinc;
    case 2:""", """        kx += xinc;
        ky += yinc;
        /* fall through */
    case 2:"""),
  ed("""    for (i = 0; i < N-3; i += 4) {
        y0 = y->elems[(i+0)*yinc] * beta;
        y1 = y->elems[(i+1)*yinc] * beta;
        y2 = y->elems[(i+2)*yinc] * beta;
        y3 = y->elems[(i+3)*yinc] * beta;
        y->elems[(i+0)*yinc] = y0 + alpha*x->elems[(i+0)*xinc];
        y->elems[(i+1)*yinc] = y1 + alpha*x->elems[(i+1)*xinc];
        y->elems[(i+2)*yinc] = y2 + alpha*x->elems[(i+2)*xinc];
        y->elems[(i+3)*yinc] = y3 + alpha*x->elems[(i+3)*xinc];
    }
""", """    for (i = 0; i < N-3; i += 4) {
        y0 = y->elems[(i+0)*yinc] * beta;
        y->elems[(i+0)*yinc] = y0 + alpha*x->elems[(i+0)*xinc];
        y1 = y->elems[(i+1)*yinc] * beta;
        y->elems[(i+1)*yinc] = y1 + alpha*x->elems[(i+1)*xinc];
        y2 = y->elems[(i+2)*yinc] * beta;
        y->elems[(i+2)*yinc] = y2 + alpha*x->elems[(i+2)*xinc];
        y3 = y->elems[(i+3)*yinc] * beta;
        y->elems[(i+3)*yinc] = y3 + alpha*x->elems[(i+3)*xinc];
    }
"""))
R("axpby-ptr", "C03", "src/blas/axpy.c", fn("armas_axpby_unsafe", """
void armas_axpby_unsafe(
    DTYPE beta,
    armas_dense_t *y,
    DTYPE alpha,
    const armas_dense_t *x)
{
    const int N = armas_size(y);
    const int yinc = y->rows == 1 ? y->step : 1;
    const int xinc = x->rows == 1 ? x->step : 1;
    DTYPE *yp = y->elems;
    const DTYPE *xp = x->elems;

    for (int k = 0; k < N; k++, yp += yinc, xp += xinc) {
        *yp = beta * (*yp) + alpha * (*xp);
    }
}
"""))
R("axpby-guard", "C03", "src/blas/axpy.c", fn("armas_axpby", """
static int axpby_check(const armas_dense_t *x, const armas_dense_t *y)
{
    if (!armas_isvector(x) || !armas_isvector(y))
        return ARMAS_ENEED_VECTOR;
    if (armas_size(x) != armas_size(y))
        return ARMAS_ESIZE;
    return 0;
}

int armas_axpby(
    DTYPE beta,
    armas_dense_t *y,
    DTYPE alpha,
    const armas_dense_t *x,
    armas_conf_t *conf)
{
    int err;
    if (!conf)
        conf = armas_conf_default();

    err = axpby_check(x, y);
    if (err != 0) {
        conf->error = err;
        return -err;
    }
    armas_axpby_unsafe(beta, y, alpha, x);
    return 0;
}
"""))
# ---------------------------------------------------------------- reductions
R("dot-if", "C04", "src/blas/dot.c", ed("""    kx = i*xinc;
    ky = i*yinc;
    switch (N-i) {
    case 3:
        c0 += X->elems[kx] * Y->elems[ky];
        kx += xinc; ky += yinc;
    case 2:
        c1 += X->elems[kx] * Y->elems[ky];
        kx += xinc; ky += yinc;
    case 1:
        c2 += X->elems[kx] * Y->elems[ky];
    }
""", """    for (kx = i*xinc, ky = i*yinc; i < N; i++) {
        c0 += X->elems[kx] * Y->elems[ky];
        kx += xinc;
        ky += yinc;
    }
"""))
R("dot-simple", "C04", "src/blas/dot.c", fn("vec_dot", """
static
DTYPE vec_dot(const armas_dense_t *X,  const armas_dense_t *Y, int N)
{
    const DTYPE *xp = X->elems;
    const DTYPE *yp = Y->elems;
    int yinc = Y->rows == 1 ? Y->step : 1;
    int xinc = X->rows == 1 ? X->step : 1;
    DTYPE sum = ZERO;
    int n;

    for (n = N; n > 0; --n) {
        sum += (*xp) * (*yp);
        xp += xinc;
        yp += yinc;
    }
    return sum;
}
"""))
R("dot-halves", "C04", "src/blas/dot.c", fn("vec_dot_recursive", """
static
DTYPE vec_dot_recursive(const armas_dense_t *X, const armas_dense_t *Y, int n, int min_mvec_size)
{
    armas_dense_t xT, xB, yT, yB;
    int n2 = n/2;

    if (n < min_mvec_size || n < 2)
        return vec_dot(X, Y, n);

    __subvec(&xT, X, 0, n2);
    __subvec(&xB, X, n2, n-n2);
    __subvec(&yT, Y, 0, n2);
    __subvec(&yB, Y, n2, n-n2);
    return vec_dot_recursive(&xT, &yT, n2, min_mvec_size)
        + vec_dot_recursive(&xB, &yB, n-n2, min_mvec_size);
}
"""))
R("adot-nest", "C04", "src/blas/dot.c", ed("""    if (!armas_isvector(x)) {
        conf->error = ARMAS_ENEED_VECTOR;
        return -1;
    }
    if (!armas_isvector(y)) {
        conf->error = ARMAS_ENEED_VECTOR;
        return -1;
    }
""", """    if (!(armas_isvector(x) && armas_isvector(y))) {
        conf->error = ARMAS_ENEED_VECTOR;
        return -1;
    }
"""), ed("""    if (conf->optflags & ARMAS_ONAIVE || env->blas1min == 0) {
        dval = vec_dot(y, x, armas_size(y));
    } else {
        dval = vec_dot_recursive(y, x, armas_size(y), env->blas1min);
    }
    *value += alpha*dval;
    return 0;
""", """    const int nelem = armas_size(y);
    int naive = (conf->optflags & ARMAS_ONAIVE) != 0 || env->blas1min == 0;
    dval = naive ? vec_dot(y, x, nelem) : vec_dot_recursive(y, x, nelem, env->blas1min);
    DTYPE upd = alpha*dval;
    *value = *value + upd;
    return 0;
"""))
R("asum-loop", "C04", "src/blas/asum.c", fn("vec_asum", """
static inline ABSTYPE absval(DTYPE v)
{
    return v < ZERO ? -v : v;
}

static
ABSTYPE vec_asum(const armas_dense_t *X,  int N)
{
    int inc = X->rows == 1 ? X->step : 1;
    ABSTYPE even = 0.0, odd = 0.0;
    int i = 0;

    while (i < N-1) {
        even += ABS(X->elems[i*inc]);
        odd  += ABS(X->elems[(i+1)*inc]);
        i += 2;
    }
    if (i < N)
        even += ABS(X->elems[i*inc]);
    return even + odd;
}
"""))
# ---------------------------------------------------------------- element-wise
R("setvalues-ifs", "C05", "src/blas/mset.c", fn("armas_set_values", """
int armas_set_values(armas_dense_t *A, armas_valuefunc_t value, int flags)
{
    const int sel = flags & (ARMAS_UPPER|ARMAS_LOWER|ARMAS_SYMM);
    const int unit = flags & ARMAS_UNIT;
    int i, j;

    if (sel == ARMAS_SYMM && A->rows != A->cols)
        return -1;

    if (sel == ARMAS_UPPER) {
        for (j = 0; j < A->cols; j++) {
            int last = j < A->rows ? j : A->rows;
            for (i = 0; i < last; i++)
                A->elems[j*A->step + i] = value(i, j);
            if (j < A->rows && !unit)
                A->elems[j*A->step + j] = value(j, j);
        }
        return 0;
    }
    if (sel == ARMAS_LOWER) {
        for (j = 0; j < A->cols; j++) {
            for (i = unit ? j+1 : j; i < A->rows; i++) {
                armas_set_unsafe(A, i, j, value(i, j));
            }
        }
        return 0;
    }
    if (sel == ARMAS_SYMM) {
        for (j = 0; j < A->cols; j++) {
            if (unit)
                armas_set_unsafe(A, j, j, ONE);
            else
                armas_set_unsafe(A, j, j, value(j, j));
            for (i = j+1; i < A->rows; i++) {
                DTYPE v = value(i, j);
                armas_set_unsafe(A, i, j, v);
                armas_set_unsafe(A, j, i, v);
            }
        }
        return 0;
    }
    for (j = 0; j < A->cols; j++) {
        for (i = 0; i < A->rows; i++) {
            armas_set_unsafe(A, i, j, value(i, j));
        }
    }
    return 0;
}
"""))
# ---------------------------------------------------------------- matrix vector
R("ger-flat", "C06", "src/blas/ger.c", fn("update_ger_unb", """
static
void update_ger_unb(
    DTYPE beta,
    armas_dense_t *A,
    DTYPE alpha,
    const armas_dense_t *X,
    const armas_dense_t *Y)
{
    armas_dense_t y0;
    armas_dense_t A0;
    int j = 0;
    while (A->cols - j >= 4) {
        armas_submatrix_unsafe(&A0, A, 0, j, A->rows, 4);
        armas_subvector_unsafe(&y0, Y, j, 4);
        update4axpy(beta, &A0, alpha, X, &y0, A->rows);
        j += 4;
    }
    while (j < A->cols) {
        armas_submatrix_unsafe(&A0, A, 0, j, A->rows, 1);
        armas_subvector_unsafe(&y0, Y, j, 1);
        update1axpy(beta, &A0, alpha, X, &y0, A->rows);
        ++j;
    }
}
"""), fn("update1axpy", """
static
void update1axpy(
    DTYPE beta,
    armas_dense_t *A,
    DTYPE alpha,
    const armas_dense_t *X,
    const armas_dense_t *Y,
    int M)
{
    int xinc = X->rows == 1 ? X->step : 1;
    DTYPE *a0 = A->elems;
    const DTYPE *xp = X->elems;
    const DTYPE y0 = alpha*Y->elems[0];

    for (int i = 0; i < M; i++, xp += xinc)
        a0[i] = beta*a0[i] + (*xp)*y0;
}
"""))
R("ger-direct", "C06", "src/blas/ger.c", fn("update_ger_unb", """
static
void update_ger_unb(
    DTYPE beta,
    armas_dense_t *A,
    DTYPE alpha,
    const armas_dense_t *X,
    const armas_dense_t *Y)
{
    int i, j;
    int xinc = X->rows == 1 ? X->step : 1;
    int yinc = Y->rows == 1 ? Y->step : 1;
    for (i = 0; i < A->rows; i++) {
        DTYPE xi = X->elems[i*xinc];
        for (j = 0; j < A->cols; j++) {
            A->elems[i + j*A->step] = beta*A->elems[i + j*A->step] + alpha*xi*Y->elems[j*yinc];
        }
    }
}
"""), fn("update1axpy", ""), fn("update4axpy", ""))
R("trmv-axpy", "C07", "src/blas/trmv.c", fn("trmv_lu", """
static
void trmv_lu(
    armas_dense_t *x,
    DTYPE alpha,
    const armas_dense_t *A,
    int flags)
{
    const int N = A->cols;
    const int unit = (flags & ARMAS_UNIT) != 0;
    armas_dense_t arow, xtail;
    int k = 0;

    while (k < N) {
        const int first = k + unit;
        armas_submatrix_unsafe(&arow, A, k, first, 1, N - first);
        armas_subvector_unsafe(&xtail, x, first, N - first);
        DTYPE v = armas_dot_unsafe(&arow, &xtail);
        if (unit)
            v += armas_get_at_unsafe(x, k);
        armas_set_at_unsafe(x, k, alpha*v);
        k++;
    }
}
"""), ed("""    switch (flags & (ARMAS_TRANS|ARMAS_UPPER|ARMAS_LOWER)){
    case ARMAS_UPPER|ARMAS_TRANS:
        trmv_lut(X, alpha, A, flags);
        break;
    case ARMAS_UPPER:
        trmv_lu(X, alpha, A, flags);
        break;
    case ARMAS_LOWER|ARMAS_TRANS:
        trmv_llt(X, alpha, A, flags);
        break;
    case ARMAS_LOWER:
    default:
        trmv_ll(X, alpha, A, flags);
        break;
    }
""", """    int sel = flags & (ARMAS_TRANS|ARMAS_UPPER|ARMAS_LOWER);
    if (sel == (ARMAS_UPPER|ARMAS_TRANS)) {
        trmv_lut(X, alpha, A, flags);
        return;
    }
    if (sel == ARMAS_UPPER)
        trmv_lu(X, alpha, A, flags);
    else if (sel == (ARMAS_LOWER|ARMAS_TRANS))
        trmv_llt(X, alpha, A, flags);
    else
        trmv_ll(X, alpha, A, flags);
"""))
R("trmv-saxpy", "C07", "src/blas/trmv.c", fn("trmv_lut", """
static
void trmv_lut(
    armas_dense_t *x,
    DTYPE alpha,
    const armas_dense_t *A,
    int flags)
{
    int i, j, unit = flags & ARMAS_UNIT ? 1 : 0;
    DTYPE sum;

    for (i = A->cols-1; i >= 0; i--) {
        sum = unit ? armas_get_at_unsafe(x, i) : armas_get_at_unsafe(x, i)*armas_get_unsafe(A, i, i);
        for (j = 0; j < i; j++)
            sum += armas_get_unsafe(A, j, i)*armas_get_at_unsafe(x, j);
        armas_set_at_unsafe(x, i, alpha*sum);
    }
}
"""))
# ---------------------------------------------------------------- views
R("part-if", "C02 C06", "src/include/partition.h", fn("vec_partition_2x1", """
__ARMAS_INLINE
void vec_partition_2x1(armas_dense_t *xT, armas_dense_t *xB,
                       const armas_dense_t *x, int nb, int side)
{
    const int nr = armas_size(x);
    int top;
    if (side == ARMAS_PTOP)
        top = nb > nr ? nr : nb;
    else
        top = nb > nr ? 0 : nr - nb;
    armas_subvector_unsafe(xT, x, 0, top);
    armas_subvector_unsafe(xB, x, top, nr - top);
}
"""))
R("repart-min", "C02", "src/include/partition.h", ed("""        if (kc + nb > A->cols) {
            nb = A->cols - kc;
        }
        if (kr + nb > A->rows) {
            nb = A->rows - kr;
        }
        armas_submatrix_unsafe(A00, A, 0, 0, kr, kc);
        if (A01)""", """        {
            int rleft = A->rows - kr, cleft = A->cols - kc;
            int left = rleft < cleft ? rleft : cleft;
            nb = nb < left ? nb : left;
        }
        armas_submatrix_unsafe(A00, A, 0, 0, kr, kc);
        if (A01)"""))
R("subvec", "C01", "src/include/matrix.h", ed("""        if (Y->rows == 1) {
            armas_submatrix(X, Y, 0, n, 1, len);
        } else {
            armas_submatrix(X, Y, n, 0, len, 1);
        }
""", """        const int isrow = Y->rows == 1;
        armas_submatrix(X, Y, isrow ? 0 : n, isrow ? n : 0, isrow ? 1 : len, isrow ? len : 1);
"""))
# ---------------------------------------------------------------- blas3
R("mult-err", "C08", "src/blas/gemm.c", ed("""    int ok;

    if (armas_size(A)""", """    int ok, ta, tb, m, n, k1, k2;

    if (armas_size(A)"""), ed("""    switch (flags & (ARMAS_TRANSA|ARMAS_TRANSB|ARMAS_CTRANSA|ARMAS_CTRANSB)) {
    case ARMAS_TRANSA|ARMAS_TRANSB:
    case ARMAS_TRANSA|ARMAS_CTRANSB:
    case ARMAS_CTRANSA|ARMAS_CTRANSB:
    case ARMAS_CTRANSA|ARMAS_TRANSB:
        ok = C->rows == A->cols && C->cols == B->rows && A->rows == B->cols;
        break;
    case ARMAS_TRANSA:
    case ARMAS_CTRANSA:
        ok = C->rows == A->cols && C->cols == B->cols && A->rows == B->rows;
        break;
    case ARMAS_TRANSB:
    case ARMAS_CTRANSB:
        ok = C->rows == A->rows && C->cols == B->rows && A->cols == B->cols;
        break;
    default:
        ok = C->rows == A->rows && C->cols == B->cols && A->cols == B->rows;
        break;
    }
""", """    int am = flags & (ARMAS_TRANSA|ARMAS_CTRANSA), bm = flags & (ARMAS_TRANSB|ARMAS_CTRANSB);
    if (am == (ARMAS_TRANSA|ARMAS_CTRANSA) || bm == (ARMAS_TRANSB|ARMAS_CTRANSB)) {
        am = bm = 0;
    }
    ta = am != 0;
    tb = bm != 0;
    m = ta ? A->cols : A->rows;
    k1 = ta ? A->rows : A->cols;
    k2 = tb ? B->cols : B->rows;
    n = tb ? B->rows : B->cols;
    ok = C->rows == m && C->cols == n && k1 == k2;
"""))
R("trsm-lut-flat", "C09", "src/blas/trsm_unb.c", fn("solve_unblk_lut", """
static void divide_row(armas_dense_t *b1, const armas_dense_t *A, int j, int unit)
{
    if (unit)
        return;
    armas_scale_unsafe(b1, ONE/armas_get_unsafe(A, j, j));
}

static
void solve_unblk_lut(
    armas_dense_t *B,
    const armas_dense_t *A,
    DTYPE alpha,
    int flags)
{
    const int unit = flags & ARMAS_UNIT;
    const int N = A->cols;
    DTYPE scal = alpha;
    int j = 1;
    armas_dense_t B0, a1, b1;

    armas_row_unsafe(&b1, B, 0);
    if (!unit)
        scal = alpha/armas_get_unsafe(A, 0, 0);
    if (scal != ONE)
        armas_scale_unsafe(&b1, scal);

    while (j < N) {
        armas_submatrix_unsafe(&a1, A, 0, j, j, 1);
        armas_row_unsafe(&b1, B, j);
        armas_submatrix_unsafe(&B0, B, 0, 0, j, B->cols);
        armas_mvmult_unsafe(alpha, &b1, -ONE, &B0, &a1, ARMAS_TRANS);
        divide_row(&b1, A, j, unit);
        j++;
    }
}
"""))
# ---------------------------------------------------------------- cache
R("cache-helper", "C10", "src/base/cache.c", ed("""    // adjust row count for inner most loop
    if (cbuf->l1mem > 0) {
        cache->rb = cbuf->l1mem / (cache->KB*p);
        cache->rb &= ~0x3;
        if (cache->rb == 0)
            cache->rb = 4;
        if (cache->rb > cache->MB)
            cache->rb = cache->MB;
    } else {
        cache->rb = cache->MB;
    }
""", """    cache->rb = inner_rows(cbuf->l1mem, cache->KB*p, cache->MB);
""", n=2), ed("""static
int armas_cache_fixed2(""", """static size_t inner_rows(size_t l1mem, size_t colbytes, size_t MB)
{
    size_t rb;
    if (l1mem == 0)
        return MB;
    rb = (l1mem / colbytes) & ~(size_t)0x3;
    if (rb < 4)
        rb = 4;
    return rb < MB ? rb : MB;
}

static
int armas_cache_fixed2("""))
R("cache-cols", "C10", "src/base/cache.c", fn("cacheline_rows", """
static inline
size_t cacheline_rows(size_t rows, size_t max, size_t clp)
{
    size_t n = rows > max ? max : rows;
    n = (n / clp) * clp;
    if (n < clp)
        n = clp;
    return n;
}
"""), fn("column_count", """
static inline
size_t column_count(size_t cols, size_t max)
{
    size_t n = cols > max ? max : cols;
    n -= n % 4;
    return n >= 4 ? n : 4;
}
"""))
# ---------------------------------------------------------------- second batch
R("madd-ptr", "C05", "src/blas/madd.c", fn("vec_add", """
static
void vec_add(armas_dense_t *X,  const DTYPE alpha, int N)
{
    DTYPE *p = X->elems;
    const int inc = X->rows == 1 ? X->step : 1;
    int n = N;

    for (; n >= 4; n -= 4) {
        p[0] += alpha;
        p[inc] += alpha;
        p[2*inc] += alpha;
        p[3*inc] += alpha;
        p += 4*inc;
    }
    while (n-- > 0) {
        *p += alpha;
        p += inc;
    }
}
"""))
R("madd-flat", "C05", "src/blas/madd.c", ed("""        n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
        for (c = n; c < A->cols; ++c) {
            armas_submatrix_unsafe(&C, A, 0, c, c+1-n < A->rows ? c+1-n : A->rows, 1);
            vec_add(&C, alpha, C.rows);
        }
        break;
""", """        n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
        for (c = 0; c < A->cols; c++) {
            int nr = c + 1 - n;
            if (nr > A->rows)
                nr = A->rows;
            if (nr == 0)
                continue;
            DTYPE *col = &A->elems[c*A->step];
            for (int k = 0; k < nr; k++)
                col[k] += alpha;
        }
        break;
"""), ed("""        for (c = 0; c < A->cols; c++) {
            armas_submatrix_unsafe(&C, A, 0, c, A->rows, 1);
            vec_add(&C, alpha, C.rows);
        }
        break;
""", """        {
            DTYPE *ap = A->elems;
            for (c = A->cols; c > 0; c--) {
                for (n = 0; n < A->rows; n++)
                    ap[n] += alpha;
                ap += A->step;
            }
        }
        break;
"""))
R("gemv-tail", "C06", "src/blas/gemv.c", fn("gemv_unb", """
static
void gemv_unb_t(DTYPE *y, int yinc, DTYPE alpha, const armas_dense_t *A, const DTYPE *x, int xinc)
{
    int i = 0;
    const DTYPE *a0 = A->elems;
    while (i + 4 <= A->cols) {
        vmult4dot(y, yinc, a0, a0 + A->step, a0 + 2*A->step, a0 + 3*A->step, x, xinc, alpha, A->rows);
        y += 4*yinc;
        a0 += 4*A->step;
        i += 4;
    }
    for (; i < A->cols; i++) {
        vmult1dot(y, yinc, a0, x, xinc, alpha, A->rows);
        y += yinc;
        a0 += A->step;
    }
}

static
void gemv_unb(
    armas_dense_t *Y,
    DTYPE alpha,
    const armas_dense_t *A,
    const armas_dense_t *X,
    int flags)
{
    int j, yinc, xinc;
    const DTYPE *a0;

    if (flags & ARMAS_ABS) {
        gemv_unb_abs(Y, alpha, A, X, flags);
        return;
    }

    xinc = X->rows == 1 ? X->step : 1;
    yinc = Y->rows == 1 ? Y->step : 1;
    if ((flags & (ARMAS_TRANSA|ARMAS_TRANS)) != 0) {
        gemv_unb_t(Y->elems, yinc, alpha, A, X->elems, xinc);
        return;
    }

    // Non-Transposed A here
    for (j = 0; j < A->cols-3; j += 4) {
        a0 = &A->elems[j*A->step];
        vmult4axpy(Y->elems, yinc, a0, a0 + A->step, a0 + 2*A->step, a0 + 3*A->step, &X->elems[j*xinc], xinc, alpha, A->rows);
    }
    while (j < A->cols) {
        a0 = &A->elems[j*A->step];
        vmult1axpy(Y->elems, yinc, a0, &X->elems[j*xinc], xinc, alpha, A->rows);
        j++;
    }
}
"""))
R("gemv-plain", "C06", "src/blas/gemv.c", fn("gemv_unb", """
static
void gemv_unb(
    armas_dense_t *Y,
    DTYPE alpha,
    const armas_dense_t *A,
    const armas_dense_t *X,
    int flags)
{
    int i, j;
    int xinc = X->rows == 1 ? X->step : 1;
    int yinc = Y->rows == 1 ? Y->step : 1;

    if (flags & ARMAS_ABS) {
        gemv_unb_abs(Y, alpha, A, X, flags);
        return;
    }
    if ((flags & ARMAS_TRANSA) || (flags & ARMAS_TRANS)) {
        for (i = 0; i < A->cols; i++) {
            DTYPE s = ZERO;
            for (j = 0; j < A->rows; j++)
                s += A->elems[i*A->step+j]*X->elems[j*xinc];
            Y->elems[i*yinc] += alpha*s;
        }
    } else {
        for (i = 0; i < A->rows; i++) {
            DTYPE s = ZERO;
            const DTYPE *ap = &A->elems[i];
            for (j = 0; j < A->cols; j++, ap += A->step)
                s += (*ap)*X->elems[j*xinc];
            Y->elems[i*yinc] += alpha*s;
        }
    }
}
"""))
R("gemv-rec-order", "C06", "src/blas/gemv.c", ed("""    gemv_recursive(&yT, alpha, &ATL, &xT, flags, min_mvec_size);
    if (flags & ARMAS_TRANS) {
        gemv_recursive(&yT, alpha, &ABL, &xB, flags, min_mvec_size);
        gemv_recursive(&yB, alpha, &ATR, &xT, flags, min_mvec_size);
    } else {
        gemv_recursive(&yT, alpha, &ATR, &xB, flags, min_mvec_size);
        gemv_recursive(&yB, alpha, &ABL, &xT, flags, min_mvec_size);
    }
    gemv_recursive(&yB, alpha, &ABR, &xB, flags, min_mvec_size);
""", """    const armas_dense_t *offT = (flags & ARMAS_TRANS) ? &ABL : &ATR;
    const armas_dense_t *offB = (flags & ARMAS_TRANS) ? &ATR : &ABL;
    gemv_recursive(&yB, alpha, &ABR, &xB, flags, min_mvec_size);
    gemv_recursive(&yB, alpha, offB, &xT, flags, min_mvec_size);
    gemv_recursive(&yT, alpha, offT, &xB, flags, min_mvec_size);
    gemv_recursive(&yT, alpha, &ATL, &xT, flags, min_mvec_size);
"""))
R("gemv-rename", "C06", "src/blas/gemv.c", ed("gemv_recursive", "gemv_split", n=9))
R("dot-param", "C04", "src/blas/dot.c",
  ed("DTYPE vec_dot_recursive(const armas_dense_t *X, const armas_dense_t *Y, int n, int min_mvec_size)",
     "DTYPE vec_dot_recursive(int min_mvec_size, const armas_dense_t *X, const armas_dense_t *Y, int n)"),
  ed("    c0 = vec_dot_recursive(__subvec(&x0, X, 0, n4),     __subvec(&y0, Y, 0, n4),     n4, min_mvec_size);",
     "    c0 = vec_dot_recursive(min_mvec_size, __subvec(&x0, X, 0, n4),     __subvec(&y0, Y, 0, n4),     n4);"),
  ed("    c1 = vec_dot_recursive(__subvec(&x0, X, n4, n2-n4), __subvec(&y0, Y, n4, n2-n4), n2-n4, min_mvec_size);",
     "    c1 = vec_dot_recursive(min_mvec_size, __subvec(&x0, X, n4, n2-n4), __subvec(&y0, Y, n4, n2-n4), n2-n4);"),
  ed("    c2 = vec_dot_recursive(__subvec(&x0, X, n2, n4),    __subvec(&y0, Y, n2, n4),    n4, min_mvec_size);",
     "    c2 = vec_dot_recursive(min_mvec_size, __subvec(&x0, X, n2, n4),    __subvec(&y0, Y, n2, n4),    n4);"),
  ed("    c3 = vec_dot_recursive(__subvec(&x0, X, n2+n4, nn), __subvec(&y0, Y, n2+n4, nn), nn, min_mvec_size);",
     "    c3 = vec_dot_recursive(min_mvec_size, __subvec(&x0, X, n2+n4, nn), __subvec(&y0, Y, n2+n4, nn), nn);"),
  ed("vec_dot_recursive(y, x, armas_size(y), env->blas1min)", "vec_dot_recursive(env->blas1min, y, x, armas_size(y))", n=2))
R("trsv-loop", "C07", "src/blas/trsv.c", fn("trsv_ll", """
static
void trsv_ll(
    armas_dense_t *x,
    DTYPE alpha,
    const armas_dense_t *A,
    int flags)
{
    const int n = A->cols;
    int i, unit = flags & ARMAS_UNIT;
    DTYPE s;
    armas_dense_t arow, done;

    // the first row uses an empty inner product
    for (i = 0; i < n; i++) {
        s = alpha * armas_get_at_unsafe(x, i);
        if (i > 0) {
            armas_submatrix_unsafe(&arow, A, i, 0, 1, i);
            armas_subvector_unsafe(&done, x, 0, i);
            s -= armas_dot_unsafe(&done, &arow);
        }
        armas_set_at_unsafe(x, i, unit ? s : s / armas_get_unsafe(A, i, i));
    }
}
"""))
R("trsm-recip", "C09", "src/blas/trsm_unb.c", fn("solve_unblk_ru", """
static
void solve_unblk_ru(
    armas_dense_t *B,
    const armas_dense_t *A,
    DTYPE alpha,
    int flags)
{
    armas_dense_t B0, a1, b1;
    int j;

    for (j = 0; j < A->cols; j++) {
        armas_column_unsafe(&b1, B, j);
        if (j == 0) {
            if (alpha != ONE)
                armas_scale_unsafe(&b1, alpha);
        } else {
            armas_submatrix_unsafe(&B0, B, 0, 0, B->rows, j);
            armas_submatrix_unsafe(&a1, A, 0, j, j, 1);
            armas_mvmult_unsafe(alpha, &b1, -ONE, &B0, &a1, 0);
        }
        if ((flags & ARMAS_UNIT) == 0)
            armas_scale_unsafe(&b1, ONE/armas_get_unsafe(A, j, j));
    }
}
"""))
R("symm-flip", "C09", "src/blas/symm.c", ed("""            r  = (flags & ARMAS_UPPER) != 0 ? 0 : P+i;
            c  = (flags & ARMAS_UPPER) != 0 ? P+i : 0;
            nr = (flags & ARMAS_UPPER) != 0 ? P+i : nI;
            nc = (flags & ARMAS_UPPER) != 0 ? nI : P+i;
            armas_submatrix_unsafe(&A0, A, r, c, nr, nc);
""", """            if (flags & ARMAS_UPPER) {
                r = 0;
                c = nr = P + i;
                nc = nI;
            } else {
                c = 0;
                r = nc = P + i;
                nr = nI;
            }
            armas_submatrix_unsafe(&A0, A, r, c, nr, nc);
"""), ed("""    for (i = 0; i < C->rows; i += mb) {
        nI = C->rows - i < mb ? C->rows - i : mb;

        // for all column of C, B ...
        for (j = 0; j < C->cols; j += nb) {
            nJ = C->cols - j < nb ? C->cols - j : nb;
            armas_submatrix_unsafe(&C0, C, i, j, nI, nJ);
""", """    for (i = 0; i < C->rows; i += nI) {
        nI = C->rows - i;
        if (nI > mb)
            nI = mb;

        // for all column of C, B ...
        for (j = 0; j < C->cols; j += nJ) {
            nJ = C->cols - j;
            if (nJ > nb)
                nJ = nb;
            armas_submatrix_unsafe(&C0, C, i, j, nI, nJ);
"""))
R("syrk-if", "C09", "src/blas/syrk.c", ed("""    switch (flags & ARMAS_TRANS) {
    case ARMAS_TRANS:
        ok = C->rows == A->cols && C->rows == C->cols;
        break;
    default:
        ok = C->rows == A->rows && C->rows == C->cols;
        break;
    }
    if (!ok) {
        conf->error = ARMAS_ESIZE;
        return -ARMAS_ESIZE;
    }
    int uflags = flags & (ARMAS_UPPER | ARMAS_LOWER);
    uflags |= (flags & ARMAS_TRANS ? ARMAS_TRANSA : ARMAS_TRANSB);
""", """    const int trans = flags & ARMAS_TRANS;
    const int n = trans ? A->cols : A->rows;
    ok = C->rows == n && C->cols == n;
    if (!ok) {
        conf->error = ARMAS_ESIZE;
        return -ARMAS_ESIZE;
    }
    int uflags = trans ? ARMAS_TRANSA : ARMAS_TRANSB;
    if (flags & ARMAS_UPPER)
        uflags |= ARMAS_UPPER;
    if (flags & ARMAS_LOWER)
        uflags |= ARMAS_LOWER;
"""))
R("nrm2-vars", "C16", "src/blas/nrm2.c", ed("""    sum = ABSONE;
    scale = ABSZERO;
    for (i = 0; i < armas_size(x); i += 1) {
        if (x->elems[(i+0)*inc] != ZERO) {
            a0 = ABS(x->elems[(i+0)*inc]);
            if (a0 > scale) {
                sum = ONE + sum * ((scale/a0)*(scale/a0));
                scale = a0;
            } else {
                sum = sum + (a0/scale)*(a0/scale);
            }
        }
    }
""", """    const DTYPE *e = x->elems;
    int n = armas_size(x);
    sum = ABSONE;
    scale = ABSZERO;
    for (i = 0; i < n; i++, e += inc) {
        if (*e == ZERO)
            continue;
        a0 = ABS(*e);
        ABSTYPE q = a0 > scale ? scale/a0 : a0/scale;
        if (a0 <= scale) {
            sum += q*q;
            continue;
        }
        sum = ONE + sum * q * q;
        scale = a0;
    }
"""))
R("house-if", "C16", "src/lapack/house.c", ed("""    switch (flags & (ARMAS_NONNEG)) {
    case ARMAS_NONNEG:
        if (x0val <= 0.0) {
            alpha = x0val - beta;
            delta = HYPOT(normx, alpha);
        } else {
            alpha = -normx * (normx / (x0val + beta));
            delta = HYPOT(normx, alpha);
        }
        break;
    default:
        beta = -sign * beta;
        delta = HYPOT(normx, x0val - beta);
        alpha = x0val - beta;
        break;
    }
""", """    if (flags & ARMAS_NONNEG) {
        alpha = x0val <= 0.0 ? x0val - beta : -(normx * normx) / (x0val + beta);
    } else {
        beta = x0val < 0.0 ? beta : -beta;
        alpha = x0val - beta;
    }
    delta = HYPOT(alpha, normx);
"""))
R("gvleft-idx", "C16", "src/lapack/givens.c", ed("""    y0 = &A->elems[col * A->step + r1];
    y1 = &A->elems[col * A->step + r2];
    for (k = 0, n = 0; k < ncol; k++, n += A->step) {
        t0 = c * y0[n] + s * y1[n];
        y1[n] = c * y1[n] - s * y0[n];
        y0[n] = t0;
    }
""", """    y0 = A->elems + r1;
    y1 = A->elems + r2;
    for (k = col; k < col + ncol; k++) {
        n = k * A->step;
        t0 = y0[n];
        y0[n] = c * t0 + s * y1[n];
        y1[n] = c * y1[n] - s * t0;
    }
"""))
R("gvrotg-scalar", "C16", "src/lapack/gvrot.h", ed("""        *s = b0[3];
        *r = b0[2];
        *c = b1[2];
        if (signbit(b)) {
            *s = -(*s);
            *c = -(*c);
            *r = -(*r);
        }
""", """        DTYPE t = a / b, u = SQRT(t * t + 1.0);
        u = b < 0.0 ? -u : u;
        *s = 1.0 / u;
        *c = t / u;
        *r = b * u;
"""))
