SEEDS = []


def S(id, prop, file, edits, needs, breaks, demo, nth=0):
    SEEDS.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, nth=nth))


S("B01", "C03", "src/blas/axpy.c",
  [("    if (!(armas_isvector(x) && armas_isvector(y))) {", "    if (!(armas_isvector(x) || armas_isvector(y))) {")],
  "one operand a true matrix with as many elements as the vector", "a matrix is accepted as destination and storage between its columns is changed",
  r"""
int armas_d_axpby(double, M *, double, M *, void *);
int main() {
    M y = fill(3, 4, 5, 1), x = fill(12, 1, 12, 2), y0 = dup(y);
    if (armas_d_axpby(2.0, &y, 3.0, &x, 0) >= 0) { printf("not rejected\n"); bad = 1; }
    for (int j = 0; j < 20; j++) near(y.elems[j], y0.elems[j], "y");
    return bad;
}
""")
S("B02", "C04", "src/blas/dot.c",
  [("c1 = vec_dot(__subvec(&x0, X, n4, n2-n4 ), __subvec(&y0, Y, n4, n2-n4), n2-n4);",
    "c1 = vec_dot(__subvec(&x0, X, n4, n2-n4 ), __subvec(&y0, Y, n4, n2-n4), n4);")],
  "recursive summation where the length is two or three modulo four and lies between two and four times the recursion threshold",
  "one product is missing from the inner product",
  r"""
double armas_d_dot(M *, M *, void *);
int main() {
    armas_getenv()->blas1min = 8;
    for (int n = 0; n < 80; n++) {
        M x = fill(n, 1, n > 0 ? n : 1, 1), y = fill(1, n, 1, 2);
        double s = 0;
        for (int i = 0; i < n; i++) s += x.elems[i] * y.elems[i];
        near(n > 1 ? armas_d_dot(&x, &y, 0) : s, s, "dot");
    }
    return bad;
}
""")
S("B03", "C05", "src/blas/mset.c",
  [("            for (i = 0; i < j && i < A->rows; i++) {\n                armas_set_unsafe(A, i, j, value(i, j));",
    "            for (i = 0; i < j && i < A->cols; i++) {\n                armas_set_unsafe(A, i, j, value(i, j));")],
  "an upper trapezoidal matrix with at least two more columns than rows", "elements below the last row are overwritten",
  r'''
int armas_d_set_values(M *, double (*)(int, int), int);
static double f(int i, int j) { return i - 3 * j; }
int main() {
    M a = fill(3, 8, 9, 1), a0 = dup(a);
    armas_d_set_values(&a, f, ARMAS_UPPER);
    for (int j = 0; j < 8; j++) for (int i = 0; i < 9; i++)
        near(AT(a, i, j), i < 3 && i <= j ? f(i, j) : AT(a0, i, j), "a");
    return bad;
}
''')

S("B04", "C03", "src/blas/swap.c",
  [("    if (armas_size(X) != armas_size(Y)) {", "    if (armas_size(X) < armas_size(Y)) {")],
  "swapping vectors of which the first operand is the shorter one", "operands of different length are not rejected and storage is changed",
  r"""
int armas_d_swap(M *, M *, void *);
int main() {
    M x = fill(1, 9, 3, 1), y = fill(6, 1, 6, 2), x0 = dup(x), y0 = dup(y);
    if (armas_d_swap(&y, &x, 0) >= 0) { printf("not rejected\n"); bad = 1; }
    for (int i = 0; i < 6; i++) { near(AT(x, 0, i), AT(x0, 0, i), "x"); near(AT(y, i, 0), AT(y0, i, 0), "y"); }
    return bad;
}
""")
S("B05", "C05", "src/blas/mplus.c",
  [("        for (i = j+1; i < j+4 && i < nR; i++) {\n            for (k = i; k < j+4; k++) {\n                a[i+k*lda] = alpha*ABS(",
    "        for (i = j+1; i < j+4 && i < nR; i++) {\n            for (k = j+1; k < j+4; k++) {\n                a[i+k*lda] = alpha*ABS(")],
  "adding the absolute values of upper triangular matrices with four or more columns", "elements below the diagonal are changed",
  r"""
int armas_d_mplus(double, M *, double, M *, int, void *);
int main() {
    M a = fill(5, 6, 7, 1), b = fill(5, 6, 5, 2), a0 = dup(a);
    armas_d_mplus(2.0, &a, -3.0, &b, ARMAS_UPPER|ARMAS_ABS, 0);
    for (int j = 0; j < 6; j++) for (int i = 0; i < 7; i++)
        near(AT(a, i, j), i < 5 && i <= j ? 2*fabs(AT(a0, i, j)) - 3*fabs(AT(b, i, j)) : AT(a0, i, j), "a");
    return bad;
}
""")
S("B06", "C06", "src/blas/gemv.c",
  [("    xinc = X->rows == 1 ? X->step : 1;\n    yinc = Y->rows == 1 ? Y->step : 1;\n\n    if ((flags & ARMAS_TRANS) != 0) {",
    "    xinc = X->rows == 1 ? X->step : 1;\n    yinc = Y->cols == 1 ? 1 : xinc;\n\n    if ((flags & ARMAS_TRANS) != 0) {")],
  "absolute value product with row vectors of different strides", "elements of a strided target row are not the ones updated",
  r"""
int armas_d_mvmult(double, M *, double, M *, M *, int, void *);
int main() {
    M a = fill(6, 5, 7, 1), x = fill(1, 5, 3, 2), y = fill(1, 6, 2, 3), y0 = dup(y);
    armas_d_mvmult(1.0, &y, 2.0, &a, &x, ARMAS_ABS, 0);
    for (int i = 0; i < 6; i++) {
        double s = 0;
        for (int k = 0; k < 5; k++) s += fabs(AT(a, i, k)) * fabs(AT(x, 0, k));
        near(AT(y, 0, i), AT(y0, 0, i) + 2.0 * s, "y");
    }
    return bad;
}
""")
S("B07", "C06", "src/blas/syr2.c",
  [("        armas_mvupdate_unsafe(ONE, &ATR, alpha, &yT, &xB);", "        armas_mvupdate_unsafe(beta, &ATR, alpha, &yT, &xB);")],
  "upper triangle, a scaling factor other than one and a matrix larger than the recursion threshold", "the off-diagonal block is scaled twice",
  r"""
int armas_d_mvupdate2_sym(double, M *, double, M *, M *, int, void *);
int main() {
    armas_getenv()->blas2min = 4;
    M a = fill(9, 9, 10, 1), x = fill(9, 1, 9, 2), y = fill(1, 9, 2, 3), a0 = dup(a);
    armas_d_mvupdate2_sym(0.5, &a, 2.0, &x, &y, ARMAS_UPPER, 0);
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++)
        near(AT(a, i, j), i <= j ? 0.5 * AT(a0, i, j) + 2.0 * (AT(x, i, 0) * AT(y, 0, j) + AT(y, 0, i) * AT(x, j, 0)) : AT(a0, i, j), "a");
    return bad;
}
""")
S("B08", "C06", "src/blas/updtrmv.c",
  [("            armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);\n            armas_subvector_unsafe(&x0, X, j, A->rows-j);",
    "            int nr = A->rows - j - (A->rows > A->cols && j + 1 == A->cols && (j & 3) == 2);\n            armas_submatrix_unsafe(&a0, A, j, j, nr, 1);\n            armas_subvector_unsafe(&x0, X, j, nr);")],
  "a lower trapezoid with more rows than columns and three modulo four columns", "the last element of the last column is not updated",
  r"""
int armas_d_mvupdate_trm(double, M *, double, M *, M *, int, void *);
int main() {
    for (int n = 1; n < 9; n++) for (int m = 1; m < 12; m++) {
        M a = fill(m, n, 14, 1), x = fill(m, 1, m, 2), y = fill(1, n, 2, 3), a0 = dup(a);
        if (m * n == 0) continue;
        armas_d_mvupdate_trm(0.5, &a, 2.0, &x, &y, ARMAS_LOWER, 0);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++)
            near(AT(a, i, j), i >= j ? 0.5 * AT(a0, i, j) + 2.0 * AT(x, i, 0) * AT(y, 0, j) : AT(a0, i, j), "a");
    }
    return bad;
}
""")
S("B09", "C01", "src/include/matrix.h",
  [("    if (r < 0) {\n        r += B->rows;\n    }\n    if (c < 0) {\n        c += B->cols;\n    }\n    if (nr < 0) {\n        nr = B->rows - r;\n    }\n",
    "    if (nr < 0) {\n        nr = B->rows - r;\n    }\n    if (r < 0) {\n        r += B->rows;\n    }\n    if (c < 0) {\n        c += B->cols;\n    }\n")],
  "a view whose first row is counted from the end and whose row count is left open", "the view reaches beyond the last row of its parent",
  r"""
M *armas_d_submatrix(M *, M *, int, int, int, int);
int main() {
    M a = fill(7, 5, 9, 1), v;
    for (int r = 1; r <= 7; r++) {
        armas_d_submatrix(&v, &a, -r, 1, -1, -1);
        if (v.rows != r || v.cols != 4 || v.elems != &AT(a, 7-r, 1)) { printf("%d: %d x %d\n", r, v.rows, v.cols); bad = 1; }
    }
    return bad;
}
""")
S("B10", "C01", "src/include/matrix.h",
  [("        nk = B->rows + k < B->cols ? B->rows + k : B->cols;\n        return armas_submatrix_ext", "        nk = B->rows < B->cols ? B->rows + k : B->cols;\n        return armas_submatrix_ext")],
  "a diagonal below the main one of a tall matrix that ends at its last row", "the diagonal view reaches below the last row",
  r"""
M *armas_d_diag(M *, M *, int);
int main() {
    for (int m = 1; m < 8; m++) for (int n = 1; n < 8; n++) for (int k = -m+1; k < n; k++) {
        M a = fill(m, n, m+1, 1), v;
        armas_d_diag(&v, &a, k);
        int r = k < 0 ? -k : 0, c = k > 0 ? k : 0, d = m-r < n-c ? m-r : n-c;
        if (v.rows != 1 || v.cols != d || v.step != m+2 || v.elems != &AT(a, r, c)) { printf("%d %d %d\n", m, n, k); bad = 1; }
    }
    return bad;
}
""")
S("B11", "C02", "src/include/partition.h",
  [("        if (nb > kc)\n            nb = kc;\n        if (nb > kr)\n            nb = kr;\n", "        if (nb > kc)\n            nb = kc;\n        else if (nb > kr)\n            nb = kr;\n")],
  "stepping towards the top left corner with a leading block that has fewer rows than columns and both fewer than the block size",
  "the exposed block starts above the matrix",
  r"""
void mat_d_repartition_2x2to3x3(M *, M *, M *, M *, M *, M *, M *, M *, M *, M *, M *, int, int);
int main() {
    M a = fill(9, 9, 9, 1), b[9];
    for (int r = 0; r < 9; r++) for (int c = 0; c < 9; c++) for (int nb = 1; nb < 9; nb++) {
        M tl = a; tl.rows = r; tl.cols = c;
        mat_d_repartition_2x2to3x3(&tl, b, b+1, b+2, b+3, b+4, b+5, b+6, b+7, b+8, &a, nb, 4);
        int k = nb < r ? nb : r; if (c < k) k = c;
        if (b[4].rows != k || b[4].cols != k || b[0].rows != r-k || b[0].cols != c-k || b[8].rows != 9-r || b[8].cols != 9-c) {
            if (!bad) printf("%d %d %d: %d x %d, %d x %d\n", r, c, nb, b[4].rows, b[4].cols, b[0].rows, b[0].cols);
            bad = 1;
        }
    }
    return bad;
}
""")
S("B12", "C02", "src/include/partition.h",
  [("    int nr = armas_size(x);\n    int nrt = armas_size(xT);\n    switch (direction) {\n    case ARMAS_PBOTTOM:\n        if (nb + nrt > nr) {",
    "    int nr = armas_size(x);\n    int nrt = armas_size(xT);\n    switch (direction) {\n    case ARMAS_PBOTTOM:\n        if (nb + nrt > nr + 1) {")],
  "a vector stepped through in blocks where the last block is one element too short", "the last block reaches past the end of the vector",
  r"""
void vec_d_repartition_2x1to3x1(M *, M *, M *, M *, M *, int, int);
int main() {
    M x = fill(1, 23, 2, 1), b[3];
    for (int t = 0; t < 23; t++) for (int nb = 1; nb < 9; nb++) {
        M xt = x; xt.cols = t;
        vec_d_repartition_2x1to3x1(&xt, b, b+1, b+2, &x, nb, 1);
        int k = nb < 23-t ? nb : 23-t;
        if (b[0].cols != t || b[1].cols != k || b[2].cols != 23-t-k) { printf("%d %d\n", t, nb); bad = 1; }
    }
    return bad;
}
""")
S("B13", "C07", "src/blas/trsv.c",
  [("    if (A->cols != nx || A->rows != A->cols) {", "    if (A->cols != nx) {")],
  "a system matrix with fewer rows than columns", "a matrix that is not square is accepted and storage below it is read",
  r"""
int armas_d_mvsolve_trm(M *, double, M *, int, void *);
int main() {
    M a = fill(3, 5, 9, 1), x = fill(5, 1, 5, 2), b = dup(x);
    if (armas_d_mvsolve_trm(&x, 1, &a, ARMAS_UPPER, 0) >= 0) { printf("not rejected\n"); bad = 1; }
    for (int i = 0; i < 5; i++) near(AT(x, i, 0), AT(b, i, 0), "x");
    return bad;
}
""")
S("B14", "C07", "src/blas/trmv.c",
  [("        armas_submatrix_unsafe(&a0, A, i+unit, i, A->cols-i-unit, 1);\n        armas_subvector_unsafe(&x0, x, i+unit, A->cols-i-unit);",
    "        armas_submatrix_unsafe(&a0, A, i+unit, i, A->cols-i-unit, 1);\n        armas_submatrix_unsafe(&x0, x, i+unit, 0, A->cols-i-unit, 1);")],
  "a row vector multiplied by a transposed lower matrix", "the wrong elements of the vector are used",
  r"""
int armas_d_mvmult_trm(M *, double, M *, int, void *);
int main() {
    for (int n = 2; n < 14; n++) {
        M a = fill(n, n, n+1, 1), x = fill(1, n, 3, 2), b = dup(x);
        armas_d_mvmult_trm(&x, 2, &a, ARMAS_LOWER|ARMAS_TRANS, 0);
        for (int i = 0; i < n; i++) {
            double s = 0;
            for (int k = i; k < n; k++) s += AT(a, k, i) * AT(b, 0, k);
            near(2*s, AT(x, 0, i), "x");
        }
    }
    return bad;
}
""")
GEMM = r"""
int armas_d_mult(double, M *, double, M *, M *, int, void *);
static void ref(int m, int n, int p, int fl, int ta, int tb, int ab) {
    M a = ta ? fill(p, m, p+3, 1) : fill(m, p, m+3, 1), b = tb ? fill(n, p, n+1, 4) : fill(p, n, p+1, 4), c = fill(m, n, m, 2), o = dup(c);
    armas_d_mult(0.5, &c, 2, &a, &b, fl, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k < p; k++) {
            double x = ta ? AT(a, k, i) : AT(a, i, k), y = tb ? AT(b, j, k) : AT(b, k, j);
            s += ab ? fabs(x) * fabs(y) : x * y;
        }
        near(AT(c, i, j), 0.5 * AT(o, i, j) + 2 * s, "c");
    }
}
"""
S("B16", "C08", "src/include/matcpy.h",
  [("        case 2:\n            d[j+i*ldD] = ABS(s[i+j*ldS]);\n            i++;\n        case 1:\n            d[j+i*ldD] = ABS(s[i+j*ldS]);\n        }\n    }\n}\n\nstatic inline\nvoid copy_trans4x1_abs",
    "        case 2:\n            d[j+i*ldD] = ABS(s[i+j*ldS]);\n            i++;\n        case 1:\n            d[j+i*ldD] = s[i+j*ldS];\n        }\n    }\n}\n\nstatic inline\nvoid copy_trans4x1_abs")],
  "absolute values requested, an inner dimension that is not a multiple of four and a row count that leaves a remainder of one to three",
  "elements at the end of the remainder columns are packed with their sign",
  GEMM + r"""
int main() {
    for (int m = 1; m < 10; m++) for (int n = 1; n < 10; n++) for (int p = 1; p < 10; p++)
        ref(m, n, p, ARMAS_ABSA|ARMAS_ABSB, 0, 0, 1);
    return bad;
}
""")
S("B17", "C08", "src/blas/kernel.c",
  [("    // protect against invalid rb parameter (for time being)\n    if (cache->rb == 0 || cache->rb > cache->MB) {\n        cache->rb = cache->MB/2;\n    }\n\n    int P = (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) != 0 ? A->rows : A->cols;",
    "    // protect against invalid rb parameter (for time being)\n    if (cache->rb == 0 || cache->rb > cache->MB) {\n        cache->rb = cache->MB/2;\n    }\n\n    int P = (flags & ARMAS_TRANSA) != 0 ? A->rows : A->cols;")],
  "the kernel that does not scale is called for a conjugate transposed first operand that is not square", "the inner dimension is taken from the wrong side of the operand",
  r"""
typedef struct { double *Acpy, *Bcpy; size_t ab_step, KB, NB, MB, rb; double *C0, *dC; size_t c_step; void *cbuf; } C;
int armas_d_mult_kernel_nc(M *, double, M *, M *, int, C *);
int main() {
    for (int m = 1; m < 12; m++) for (int p = 1; p < 30; p++) {
        double *buf = aligned_alloc(64, 65536);
        memset(buf, 0, 65536);
        C k = { buf, buf + 2048, 16, 16, 8, 8, 8, 0, 0, 0, 0 };
        M a = fill(p, m, p+3, 1), b = fill(p, 5, p+2, 3), c = fill(m, 5, m, 5), o = dup(c);
        armas_d_mult_kernel_nc(&c, 2, &a, &b, ARMAS_CTRANSA, &k);
        for (int i = 0; i < m; i++) for (int j = 0; j < 5; j++) {
            double s = 0;
            for (int l = 0; l < p; l++) s += AT(a, l, i) * AT(b, l, j);
            near(AT(c, i, j), AT(o, i, j) + 2 * s, "c");
        }
    }
    return bad;
}
""")
S("B18", "C08", "src/blas/gemm.c",
  [("    case ARMAS_CTRANSA|ARMAS_CTRANSB:\n    case ARMAS_CTRANSA|ARMAS_TRANSB:\n        ok =", "    case ARMAS_CTRANSA|ARMAS_CTRANSB:\n        ok =")],
  "first operand conjugate transposed, second transposed and the sizes fit that combination only", "a proper product is rejected",
  GEMM + r"""
int main() { ref(3, 5, 7, ARMAS_CTRANSA|ARMAS_TRANSB, 1, 1, 0); ref(4, 4, 4, ARMAS_CTRANSA|ARMAS_TRANSB, 1, 1, 0); return bad; }
""")
S("B19", "C08", "src/include/matcpy.h",
  [("        for (i = 0; i < nR; i++) {\n            d[(i+0)+(j+0)*ldD] = ABS(s[(i+0)+(j+0)*ldS]);\n            d[(i+0)+(j+1)*ldD] = ABS(s[(i+0)+(j+1)*ldS]);\n            d[(i+0)+(j+2)*ldD] = ABS(s[(i+0)+(j+2)*ldS]);\n            d[(i+0)+(j+3)*ldD] = ABS(s[(i+0)+(j+3)*ldS]);",
    "        for (i = 0; i < nR; i++) {\n            d[(i+0)+(j+0)*ldD] = ABS(s[(i+0)+(j+0)*ldS]);\n            d[(i+0)+(j+1)*ldD] = ABS(s[(i+0)+(j+1)*ldS]);\n            d[(i+0)+(j+2)*ldD] = ABS(s[(i+0)+(j+2)*ldS]);\n            d[(i+0)+(j+3)*ldD] = s[(i+0)+(j+3)*ldS];")],
  "absolute values requested for a second operand of four or more columns", "every fourth column is packed with its sign",
  GEMM + r"""
int main() {
    for (int m = 1; m < 10; m++) for (int n = 1; n < 10; n++) for (int p = 1; p < 10; p++) {
        ref(m, n, p, ARMAS_ABSA|ARMAS_ABSB, 0, 0, 1);
        ref(m, n, p, ARMAS_ABSB|ARMAS_TRANSA, 1, 0, 1);
    }
    return bad;
}
""")
CACHE = r"""
typedef armas_cbuf_t CB;
typedef struct { unsigned char *Acpy, *Bcpy; size_t ab_step, KB, NB, MB, rb; double *C0; unsigned char *dC; size_t c_step; void *cbuf; } CA;
"""
S("B20", "C10", "src/base/cache.c",
  [("        *bptr = (void *)&cbuf->data[mn*kn*p];\n    if (cptr)", "        *bptr = (void *)&cbuf->data[mn*kn*sizeof(DTYPE)];\n    if (cptr)")],
  "a three way split for items larger than a double", "the second block starts inside the first",
  CACHE + r"""
void armas_cbuf_split3(CB *, void **, void **, void **, size_t *, size_t *, size_t *, size_t);
int main() {
    static char b[200000]; CB c;
    c.data = b; c.len = 100000; 
    for (size_t p = 4; p <= 16; p *= 2) for (size_t m0 = 8; m0 < 200; m0 += 24) {
        size_t m = m0, n = 2*m0, k = 4*m0; void *x, *y, *z;
        armas_cbuf_split3(&c, &x, &y, &z, &m, &n, &k, p);
        if ((char *)y - (char *)x < (long)(m*k*p) || (char *)z - (char *)y < (long)(n*k*p)) { printf("%zu %zu %zu %zu\n", m, n, k, p); bad = 1; }
    }
    return bad;
}
""")
S("B21", "C10", "src/base/cache.c",
  [("    cache->dC   = (DTYPE *)(&cbuf->data[(mb+nb)*cache->ab_step*p]);", "    cache->dC   = (DTYPE *)(&cbuf->data[(mb+nb)*cache->KB*p]);")],
  "fixed block sizes with an inner size smaller than a cache line", "the result block starts inside the second operand block",
  CACHE + r"""
void armas_cache_setup(CA *, CB *, int, size_t);
int main() {
    static char b[200000]; CB c; armas_env_t *e = armas_getenv();
    c.data = b; c.len = 100000; c.l1mem = 0; c.cmem = 100000;
    e->fixed = 1; e->mb = 8; e->nb = 8;
    for (int k = 4; k < 40; k += 4) {
        CA ca; e->kb = k;
        memset(&ca, 0, sizeof ca);
        armas_cache_setup(&ca, &c, 3, 8);
        if (ca.Bcpy - ca.Acpy < (long)(ca.MB*ca.ab_step*8) || ca.dC - ca.Bcpy < (long)(ca.NB*ca.ab_step*8)) { printf("%d: %ld %ld\n", k, ca.Bcpy - ca.Acpy, ca.dC - ca.Bcpy); bad = 1; }
    }
    return bad;
}
""")
S("B22", "C10", "src/base/cache.c",
  [("    na = CACHELINE - (addr & (CACHELINE-1));\n    *aligned = (void *)&p[na];\n    return len - na;", "    na = CACHELINE - (addr & (CACHELINE-1));\n    *aligned = (void *)&p[na];\n    return len - (addr & (CACHELINE-1));")],
  "a buffer made from memory that is not at the middle of a cache line", "the buffer reaches past the end of the memory",
  CACHE + r"""
int main() {
    static char b[20000] __attribute__((aligned(64)));
    for (int s = 0; s < 64; s++) {
        CB c;
        armas_cbuf_make(&c, b + s, 4096, 0);
        if (c.data < b + s || c.data + c.len > b + s + 4096) { printf("%d: %zu\n", s, c.len); bad = 1; }
    }
    return bad;
}
""")
TRI = r"""
static double tri(M *a, int upper, int unit, int i, int j) {
    if (i == j) return unit ? 1.0 : AT(*a, i, i);
    return (upper ? i < j : i > j) ? AT(*a, i, j) : 0.0;
}
"""
S("B23", "C09", "src/blas/trsm_blk.c",
  [("    for (i = A->cols-NB; i > 0; i -= NB) {", "    for (i = A->cols-NB; i > 1; i -= NB) {")],
  "blocked solve from the left with an upper matrix whose size is one more than a multiple of the block size", "the first row of the solution is left unsolved",
  TRI + r"""
int armas_d_solve_trm(M *, double, M *, int, void *);
int main() {
    armas_env_t *e = armas_getenv(); e->nb = 16;
    for (int n = 20; n < 90; n++) {
        int m = 3;
        M a = fill(n, n, n + 2, 1), x = fill(n, m, n + 1, 2), b = dup(x);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) AT(a, i, j) = i == j ? 2.0 + i % 3 : AT(a, i, j) / (8.0 * n);
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
            double s = 0;
            for (int k = 0; k < n; k++) s += tri(&a, 1, 0, i, k) * AT(x, k, j);
            AT(b, i, j) = s;
        }
        armas_d_solve_trm(&b, 1.0, &a, ARMAS_UPPER|ARMAS_LEFT, 0);
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) near(AT(b, i, j), AT(x, i, j), "x");
    }
    return bad;
}
""")
S("B24", "C09", "src/blas/symm.c",
  [("    if (alpha == 0.0) {\n        if (beta != 1.0) {\n            armas_scale_unsafe(C, beta);", "    if (alpha == 0.0) {\n        if (beta * beta != beta) {\n            armas_scale_unsafe(C, beta);")],
  "symmetric multiply from the left with both scale factors zero", "the target keeps its old contents instead of becoming zero",
  r"""
int armas_d_mult_sym(double, M *, double, M *, M *, int, void *);
int main() {
    double be[] = {0.0, 1.0, 2.0};
    for (int k = 0; k < 3; k++) {
        M a = fill(5, 5, 6, 1), b = fill(5, 4, 5, 2), c = fill(5, 4, 7, 3), c0 = dup(c);
        armas_d_mult_sym(be[k], &c, 0.0, &a, &b, ARMAS_LOWER|ARMAS_LEFT, 0);
        for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) near(AT(c, i, j), be[k] * AT(c0, i, j), "c");
    }
    return bad;
}
""")
S("B25", "C09", "src/blas/syr2k.c",
  [("    int ok = A->rows == B->rows && A->cols == B->cols && C->rows == C->cols;", "    int ok = A->rows == B->rows && A->cols >= B->cols && C->rows == C->cols;")],
  "second operand with fewer columns than the first", "the operands are accepted and columns outside the second operand are used",
  r"""
int armas_d_update2_sym(double, M *, double, M *, M *, int, void *);
int main() {
    M c = fill(6, 6, 7, 1), c0 = dup(c), x = fill(6, 4, 6, 2), y = fill(6, 3, 8, 3);
    if (armas_d_update2_sym(0.5, &c, 2.0, &x, &y, ARMAS_LOWER, 0) >= 0) { printf("not rejected\n"); bad = 1; }
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) near(AT(c, i, j), AT(c0, i, j), "c");
    return bad;
}
""")
S("B26", "C09", "src/blas/updtrmm.c",
  [("        armas_submatrix_unsafe(&a0, A, 0, nb, A->rows, A->cols-nb);", "        armas_submatrix_unsafe(&a0, A, 0, 0, A->rows, A->cols-nb);")],
  "lower trapezoidal target with more rows than columns, transposed first operand, more columns than the recursion limit", "rows below the triangle are updated with the wrong columns of the operand",
  r"""
int armas_d_update_trm(double, M *, double, M *, M *, int, void *);
int main() {
    int m = 150, n = 70, k = 3;
    M c = fill(m, n, m + 1, 1), c0 = dup(c), a = fill(k, m, k, 2), b = fill(k, n, k + 3, 3);
    armas_conf_t cf = *armas_conf_default(); cf.optflags = ARMAS_ORECURSIVE;
    armas_getenv()->blas2min = 32;
    armas_d_update_trm(1.0, &c, 2.0, &a, &b, ARMAS_LOWER|ARMAS_TRANSA, &cf);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double s = 0;
        for (int p = 0; p < k; p++) s += AT(a, p, i) * AT(b, p, j);
        near(AT(c, i, j), i >= j ? AT(c0, i, j) + 2.0 * s : AT(c0, i, j), "c");
    }
    return bad;
}
""")
S("B27", "C09", "src/blas/trmm_rec.c",
  [("        armas_mult_kernel_nc(&BL, alpha, &BR, &ATR, ARMAS_TRANSB, cache);", "        armas_mult_kernel_nc(&BL, ONE, &BR, &ATR, ARMAS_TRANSB, cache);")],
  "recursive multiply from the right with a transposed upper matrix above the recursion limit and a scale factor other than one", "part of the product is not scaled",
  TRI + r"""
int armas_d_mult_trm(M *, double, M *, int, void *);
int main() {
    int n = 40, m = 3;
    armas_env_t *e = armas_getenv(); e->blas2min = 8;
    armas_conf_t cf = *armas_conf_default(); cf.optflags |= ARMAS_ORECURSIVE;
    M a = fill(n, n, n + 2, 1), b = fill(m, n, m + 1, 2), b0 = dup(b);
    armas_d_mult_trm(&b, 2.0, &a, ARMAS_UPPER|ARMAS_RIGHT|ARMAS_TRANS, &cf);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k < n; k++) s += AT(b0, i, k) * tri(&a, 1, 0, j, k);
        near(AT(b, i, j), 2.0 * s, "b");
    }
    return bad;
}
""")
HH = r"""
#include <math.h>
int armas_d_house(M *, M *, M *, int, void *);
void armas_d_gvcompute(double *, double *, double *, double, double);
int armas_d_gvright(M *, double, double, int, int, int, int);
int armas_d_gvleft(M *, double, double, int, int, int, int);
double armas_d_nrm2(M *, void *);
int armas_d_houseapply2x1(M *, M *, M *, M *, M *, int, void *);
"""
S("B28", "C16", "src/lapack/house.c",
  [("            delta = -normx * (normx / (alpha - beta));", "            delta = -normx * (normx / (alpha + beta));")],
  "scaled reflector with both the negative and the nonnegative option and a negative first element", "the reflector does not annihilate its vector",
  HH + r"""
int main() {
    for (int sg = -1; sg < 2; sg += 2) {
        M a = fill(1, 1, 1, 1), x = fill(5, 1, 5, 2), t = fill(1, 1, 1, 3), x0 = dup(x);
        AT(a, 0, 0) = sg * 1.5;
        if (armas_d_house(&a, &x, &t, ARMAS_UNIT | ARMAS_NONNEG | ARMAS_HHNEGATIVE, 0) != 0) return 1;
        double vv = 1, vx = sg * 1.5, tau = AT(t, 0, 0);
        for (int i = 0; i < 5; i++) { vv += AT(x, i, 0) * AT(x, i, 0); vx += AT(x, i, 0) * AT(x0, i, 0); }
        near(tau * vv, 2.0, "orthogonal");
        near(sg * 1.5 - tau * vx, -AT(a, 0, 0), "beta");
        for (int i = 0; i < 5; i++) near(AT(x0, i, 0) - tau * vx * AT(x, i, 0), 0.0, "x");
    }
    return bad;
}
""")
S("B30", "C16", "src/blas/nrm2.c",
  [("        return ABS(x->elems[0]);", "        return x->elems[0];")],
  "norm of a vector with one, negative, element", "the norm is negative",
  HH + r"""
int main() {
    M x = fill(1, 1, 1, 1);
    AT(x, 0, 0) = -2.5;
    near(armas_d_nrm2(&x, 0), 2.5, "norm");
    return bad;
}
""")
S("B31", "C16", "src/lapack/givens.c",
  [("    y0 = &A->elems[c1 * A->step + row];\n    y1 = &A->elems[c2 * A->step + row];", "    y0 = &A->elems[c1 * A->step + row];\n    y1 = &A->elems[c2 * A->rows + row];")],
  "rotating columns of a matrix whose leading dimension is larger than its number of rows", "a wrong column takes part in the rotation",
  HH + r"""
int main() {
    M a = fill(4, 6, 7, 1), a0 = dup(a);
    armas_d_gvright(&a, 0.6, 0.8, 1, 4, 1, 2);
    for (int j = 0; j < 6; j++) for (int i = 0; i < 4; i++) {
        double w = AT(a0, i, j);
        if (i >= 1 && i < 3 && j == 1) w = 0.6 * AT(a0, i, 1) + 0.8 * AT(a0, i, 4);
        if (i >= 1 && i < 3 && j == 4) w = 0.6 * AT(a0, i, 4) - 0.8 * AT(a0, i, 1);
        near(AT(a, i, j), w, "a");
    }
    return bad;
}
""")
S("B32", "C16", "src/lapack/house.c",
  [("    tval = tau ? armas_get(tau, 0, 0) : TWO;\n    if (tval == 0.0) {", "    tval = tau ? armas_get(tau, 0, 0) : ONE;\n    if (tval == 0.0) {")],
  "unscaled reflector (no scalar given) applied to a stacked pair", "half of the reflection is applied",
  HH + r"""
int main() {
    M a = fill(1, 4, 2, 1), A = fill(3, 4, 5, 2), v = fill(3, 1, 3, 3), w = fill(4, 1, 4, 4), a0 = dup(a), A0 = dup(A);
    armas_d_houseapply2x1(&a, &A, 0, &v, &w, ARMAS_LEFT, 0);
    for (int j = 0; j < 4; j++) {
        double s = AT(a0, 0, j);
        for (int k = 0; k < 3; k++) s += AT(A0, k, j) * AT(v, k, 0);
        near(AT(a, 0, j), AT(a0, 0, j) - 2 * s, "a");
        for (int k = 0; k < 3; k++) near(AT(A, k, j), AT(A0, k, j) - 2 * s * AT(v, k, 0), "A");
    }
    return bad;
}
""")
S("B33", "C12", "src/include/armas.h",
  [("    if (!W || nbytes > W->bytes - W->offset)", "    if (!W || W->offset + nbytes > W->bytes)")],
  "reserving an absurdly large number of bytes from a partly used buffer", "the sum wraps, the reservation succeeds and the position moves backwards",
  r"""
int main() {
    armas_wbuf_t W;
    if (!armas_walloc(&W, 100)) return 1;
    char *p = armas_wreserve_bytes(&W, 40);
    if (armas_wreserve_bytes(&W, (size_t)-8)) return 1;
    char *q = armas_wreserve_bytes(&W, 16);
    return !(p && q && q >= p + 40);
}
""")
S("B34", "C12", "src/include/armas.h",
  [("    W->offset += nbytes;\n    return (void *)r;", "    W->offset += __align64(nbytes);\n    return (void *)r;")],
  "a reservation of a size that is not a multiple of eight near the end of the buffer, then another one", "the position passes the end and everything is handed out",
  r"""
int main() {
    armas_wbuf_t W;
    if (!armas_walloc(&W, 12)) return 1;
    if (!armas_wreserve_bytes(&W, 12)) return 1;
    return armas_wreserve_bytes(&W, 64) != 0 || armas_wbytes(&W) != 0;
}
""")
S("B35", "C12", "src/include/armas.h",
  [("memset(W->buf, 0, n > 0 && n <= W->bytes ? n : W->bytes);", "memset(W->buf, 0, n > 0 && n <= W->bytes - W->offset ? n : W->bytes);")],
  "zeroing the first n bytes of a buffer with fewer than n bytes left", "everything is cleared",
  r"""
int main() {
    armas_wbuf_t W;
    if (!armas_walloc(&W, 64)) return 1;
    char *p = armas_wreserve_bytes(&W, 48);
    for (int i = 0; i < 48; i++) p[i] = 7;
    armas_wzero(&W, 32);
    return p[31] != 0 || p[32] != 7;
}
""")
S("B36", "C12", "src/include/armas.h",
  [("    W->bytes = W->buf ? nbytes : 0;\n    W->offset = 0;", "    W->bytes = W->buf ? nbytes : 0;\n    if (!W->buf)\n        W->offset = 0;")],
  "allocating into a buffer descriptor that was used before", "the new buffer starts partly used",
  r"""
int main() {
    armas_wbuf_t W;
    W.offset = 24; W.bytes = 0; W.buf = 0;
    if (!armas_walloc(&W, 64)) return 1;
    return armas_wreserve_bytes(&W, 64) == 0;
}
""")
ACC = r"""
#include "accel.h"
static armas_conf_t *acc(const char *kind, const char *cfg) {
    setenv("ARMAS_AC_CONFIG", cfg, 1);
    armas_conf_t *cf = armas_conf_default();
    armas_ac_handle_t h;
    if (armas_ac_init(&h, kind) < 0) exit(0);
    cf->accel = h;
    return cf;
}
"""
S("B37", "C11", "src/threaded/symm.c",
  [("    case ARMAS_LEFT|ARMAS_TRANSB:\n    case ARMAS_TRANSB:\n", "    case ARMAS_LEFT|ARMAS_TRANSB:\n")],
  "threads, second operand transposed and no side named (left is the default)", "blocks after the first use the wrong part of the second operand",
  ACC + r"""
int main() {
    armas_conf_t *cf = acc("S", "20,3");
    M A = fill(8, 8, 9, 1), B = fill(8, 8, 8, 2), C = fill(8, 8, 8, 3), C0 = dup(C);
    if (armas_d_mult_sym(0.5, &C, 2.0, &A, &B, ARMAS_LOWER|ARMAS_TRANSB, cf)) return 1;
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
        double s = 0;
        for (int k = 0; k < 8; k++) s += (i >= k ? AT(A, i, k) : AT(A, k, i)) * AT(B, j, k);
        near(AT(C, i, j), 0.5 * AT(C0, i, j) + 2 * s, "C");
    }
    return bad;
}
""")
S("B38", "C11", "src/threaded/gemm.c",
  [("    if (err) {\n        cf->error = -err;\n        return -1;\n    }",
    "    if (err) {\n        // do it in this thread\n        compute_block(&args);\n        return -args.error;\n    }")],
  "a thread cannot be created for a block that is not the last", "success is reported and the blocks after it are left out",
  ACC + r"""
#include <pthread.h>
#include <errno.h>
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { return EAGAIN; }
int main() {
    armas_conf_t *cf = acc("S", "20,3");
    M A = fill(31, 3, 33, 1), B = fill(3, 5, 3, 2), C = fill(31, 5, 34, 3), C0 = dup(C);
    if (armas_d_mult(0.5, &C, 2.0, &A, &B, 0, cf) < 0) return 0;
    for (int i = 0; i < 31; i++) for (int j = 0; j < 5; j++) {
        double s = 0;
        for (int k = 0; k < 3; k++) s += AT(A, i, k) * AT(B, k, j);
        near(AT(C, i, j), 0.5 * AT(C0, i, j) + 2 * s, "C");
    }
    return bad;
}
""")
S("B39", "C11", "src/workers/gemm.c",
  [("                armas_ac_block_index(i + 1, rtiles, args->C->rows) - rstart;", "                armas_ac_block_index(i + 1, rtiles, args->C->cols) - rstart;")],
  "workers with tiles and a result that is not square", "tiles of the wrong height",
  ACC + r"""
int main() {
    armas_conf_t *cf = acc("W", "8,3,T");
    M A = fill(32, 3, 33, 1), B = fill(3, 12, 3, 2), C = fill(32, 12, 34, 3), C0 = dup(C);
    if (armas_d_mult(0.5, &C, 2.0, &A, &B, 0, cf)) return 1;
    for (int i = 0; i < 32; i++) for (int j = 0; j < 12; j++) {
        double s = 0;
        for (int k = 0; k < 3; k++) s += AT(A, i, k) * AT(B, k, j);
        near(AT(C, i, j), 0.5 * AT(C0, i, j) + 2 * s, "C");
    }
    return bad;
}
""")
S("B40", "C11", "src/threaded/symm.c",
  [("    if (err) {\n        cf->error = -err;\n        return -1;\n    }\n\n    err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);\n\n    pthread_join(th, NULL);",
    "    int failed = err;\n    if (failed)\n        cf->error = -failed;\n\n    err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);\n\n    if (!failed)\n        pthread_join(th, NULL);")],
  "a thread cannot be created", "the call reports success and leaves a block of the result untouched",
  ACC + r"""
#include <pthread.h>
#include <errno.h>
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { return EAGAIN; }
int main() {
    armas_conf_t *cf = acc("S", "20,3");
    M A = fill(8, 8, 9, 1), B = fill(8, 8, 8, 2), C = fill(8, 8, 8, 3);
    return armas_d_mult_sym(0.5, &C, 2.0, &A, &B, ARMAS_LEFT|ARMAS_LOWER, cf) >= 0;
}
""")
S("B41", "C13", "src/base/pivot.c",
  [("        for (nk = A->cols - 1, k = P->npivots - 1; k >= 0; k--, nk--) {", "        for (nk = P->npivots - 1, k = P->npivots - 1; k >= 0; k--, nk--) {")],
  "column interchanges backward with fewer pivots than columns", "the wrong columns are interchanged",
  r"""
int main() {
    M A = fill(3, 6, 4, 1), A0 = dup(A);
    int ix[3] = {2, 1, 4};
    armas_pivot_t P;
    armas_pivot_make(&P, 3, ix);
    if (armas_d_pivot_cols(&A, &P, ARMAS_PIVOT_BACKWARD, 0)) return 1;
    int p[6] = {0, 1, 2, 3, 4, 5};
    for (int k = 2, r = 5; k >= 0; k--, r--) { int t = p[r]; p[r] = p[ix[k] - 1]; p[ix[k] - 1] = t; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 6; j++) near(AT(A, i, j), AT(A0, i, p[j]), "A");
    return bad;
}
""")
S("B42", "C13", "src/base/pivot.c",
  [("                apply_pivot_lower(A, k, kp - 1, conf);", "                if (kp - 1 < k)\n                    continue;\n                apply_pivot_lower(A, k, kp - 1, conf);")],
  "symmetric interchanges forward of a lower triangle with a pivot that names an earlier row", "the interchange is left out",
  r"""
int main() {
    M A = fill(4, 4, 6, 1), A0 = dup(A);
    int ix[4] = {3, 1, 3, 2}, p[4] = {0, 1, 2, 3};
    armas_pivot_t P;
    armas_pivot_make(&P, 4, ix);
    if (armas_d_pivot(&A, &P, ARMAS_PIVOT_LOWER, 0)) return 1;
    for (int k = 0; k < 4; k++) { int t = p[k]; p[k] = p[ix[k] - 1]; p[ix[k] - 1] = t; }
    for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) {
        int a = p[i], b = p[j];
        near(AT(A, i, j), a >= b ? AT(A0, a, b) : AT(A0, b, a), "A");
    }
    return bad;
}
""")
S("B43", "C13", "src/base/pivot.c",
  [("            if (n > 0 && n - 1 != k) {\n                swap_cols", "            if (n > k && n - 1 != k) {\n                swap_cols")],
  "column interchanges with a pivot that names an earlier column", "the interchange is left out",
  r"""
int main() {
    M A = fill(3, 4, 4, 1), A0 = dup(A);
    int ix[4] = {3, 1, 3, 2}, p[4] = {0, 1, 2, 3};
    armas_pivot_t P;
    armas_pivot_make(&P, 4, ix);
    if (armas_d_pivot_cols(&A, &P, ARMAS_PIVOT_FORWARD, 0)) return 1;
    for (int k = 0; k < 4; k++) { int t = p[k]; p[k] = p[ix[k] - 1]; p[ix[k] - 1] = t; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) near(AT(A, i, j), AT(A0, i, p[j]), "A");
    return bad;
}
""")
S("B44", "C16", "src/lapack/givens.c",
  [("            for (k = start, n = 0; n < nrot && k < end; n++, k++) {\n                c = armas_get_at_unsafe(C, n);\n                s = armas_get_at_unsafe(S, n);\n                if (c != 1.0 || s != 0.0)\n                    gvright(",
    "            for (k = start, n = 0; n < nrot && k < end; n++, k++) {\n                c = armas_get_at_unsafe(C, n);\n                s = armas_get_at_unsafe(S, n);\n                if (s != 0.0)\n                    gvright(")],
  "a sequence of rotations from the right, one of them by half a turn (cosine -1, sine 0)", "the two columns keep their signs",
  HH + r"""
int main() {
    M a = fill(3, 5, 4, 1), a0 = dup(a), c = fill(3, 1, 3, 2), s = fill(3, 1, 3, 3);
    double cs[] = {0.6, -1, 0.28}, sn[] = {0.8, 0, 0.96};
    for (int k = 0; k < 3; k++) AT(c, k, 0) = cs[k], AT(s, k, 0) = sn[k];
    armas_d_gvupdate(&a, 1, &c, &s, 3, ARMAS_RIGHT);
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) {
        double x = AT(a0, i, k + 1), y = AT(a0, i, k + 2);
        AT(a0, i, k + 1) = cs[k] * x + sn[k] * y;
        AT(a0, i, k + 2) = cs[k] * y - sn[k] * x;
    }
    for (int j = 0; j < 5; j++) for (int i = 0; i < 3; i++) near(AT(a, i, j), AT(a0, i, j), "a");
    return bad;
}
""")
LU = r"""
int armas_d_cholfactor(M *, armas_pivot_t *, int, armas_conf_t *);
int armas_d_cholsolve(M *, const M *, const armas_pivot_t *, int, armas_conf_t *);
int armas_d_lufactor(M *, armas_pivot_t *, armas_conf_t *);
int armas_d_lusolve(M *, M *, armas_pivot_t *, int, armas_conf_t *);
"""
S("B45", "C15", "src/lapack/lu.c",
  [("    if (ABR.rows > 0 && ABR.cols > 0) {\n        unblk_lufactor_nopiv(&ABR, conf);", "    if (ABR.rows > 0 && ABR.cols > 1) {\n        unblk_lufactor_nopiv(&ABR, conf);")],
  "blocked factorisation without pivoting, one column left over after the last full block and more rows than columns", "that column of L is not divided by the pivot",
  LU + r"""
int main() {
    int m = 12, n = 5;
    setenv("ARMAS_CONFIG", "64,64,160,4,1024,256,n", 1);
    M A = fill(m, n, 13, 1), F = fill(m, n, 13, 2);
    for (int i = 0; i < n; i++) AT(F, i, i) = 3 + i;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k <= i && k <= j; k++) s += (k == i ? 1 : AT(F, i, k)) * AT(F, k, j);
        AT(A, i, j) = s;
    }
    if (armas_d_lufactor(&A, 0, 0)) return 1;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) near(AT(A, i, j), AT(F, i, j), "A");
    return bad;
}
""")
S("B46", "C15", "src/lapack/lu.c",
  [("        armas_scale(&a21, ONE/a11val, conf);\n\n        // A22 = A22 - a21*a12\n", "        if (a12.cols > 0)\n            armas_scale(&a21, ONE/a11val, conf);\n\n        // A22 = A22 - a21*a12\n")],
  "factorisation without pivoting of a matrix with more rows than columns", "the last column of L is not divided by the pivot",
  LU + r"""
int main() {
    int m = 7, n = 4;
    M A = fill(m, n, 8, 1), F = fill(m, n, 8, 2);
    for (int i = 0; i < n; i++) AT(F, i, i) = 3 + i;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k <= i && k <= j; k++) s += (k == i ? 1 : AT(F, i, k)) * AT(F, k, j);
        AT(A, i, j) = s;
    }
    if (armas_d_lufactor(&A, 0, 0)) return 1;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) near(AT(A, i, j), AT(F, i, j), "A");
    return bad;
}
""")
S("B47", "C15", "src/lapack/chol.c",
  [("    if (flags & ARMAS_LOWER) {\n        // solve A*X = B; X = A.-1*B == (L*L.T).-1*B == L.-T*(L.-1*B)", "    if (flags == ARMAS_LOWER) {\n        // solve A*X = B; X = A.-1*B == (L*L.T).-1*B == L.-T*(L.-1*B)")],
  "solving with a lower Cholesky factor and another option bit set", "the upper triangle is taken for the factor",
  LU + r"""
int main() {
    M L = fill(4, 4, 4, 1), X = fill(4, 2, 4, 2), B = fill(4, 2, 4, 3);
    for (int i = 0; i < 4; i++) AT(L, i, i) = 2 + i;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) {
        double s = 0;
        for (int k = 0; k < 4; k++) for (int t = 0; t <= i && t <= k; t++) s += AT(L, i, t) * AT(L, k, t) * AT(X, k, j);
        AT(B, i, j) = s;
    }
    if (armas_d_cholsolve(&B, &L, 0, ARMAS_LOWER | ARMAS_LEFT, 0)) return 1;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) near(AT(B, i, j), AT(X, i, j), "X");
    return bad;
}
""")
ORD = r"""
int armas_d_sort_eigenvec(M *, M *, M *, M *, int);
double armas_d_amax(const M *, void *);
int armas_d_mult_diag(M *, double, const M *, int, void *);
"""
S("B48", "C14", "src/lapack/sort.c",
  [("                    armas_column(&m1, C, k + pk);", "                    armas_column(&m1, C, pk);")],
  "a matrix as third companion, and a key exchanged that is not the first", "columns of the third companion are exchanged that do not belong to the keys",
  ORD + r"""
int main() {
    M D = fill(5, 1, 5, 1), C = fill(3, 5, 4, 3), C0 = fill(3, 5, 4, 3), K = fill(5, 1, 5, 1);
    double d[5] = {0, 1, 4, 3, 2};
    for (int j = 0; j < 5; j++) AT(D, j, 0) = AT(K, j, 0) = d[j];
    if (armas_d_sort_eigenvec(&D, 0, 0, &C, 1)) return 1;
    for (int j = 0; j < 5; j++)
        for (int t = 0; t < 5; t++) if (AT(K, t, 0) == AT(D, j, 0))
            for (int i = 0; i < 3; i++) near(AT(C, i, j), AT(C0, i, t), "C");
    return bad;
}
""")
S("B49", "C14", "src/lapack/sort.c",
  [("            if (C) {\n                if (armas_isvector(C)) {", "            if (C && !V) {\n                if (armas_isvector(C)) {")],
  "row vectors and a third companion sorted along with the same keys", "the third companion keeps its order",
  ORD + r"""
int main() {
    M D = fill(5, 1, 5, 1), V = fill(5, 3, 5, 2), C = fill(5, 1, 5, 3), C0 = fill(5, 1, 5, 3), K = fill(5, 1, 5, 1);
    for (int j = 0; j < 5; j++) AT(D, j, 0) = AT(K, j, 0) = (j * 3 + 1) % 5;
    if (armas_d_sort_eigenvec(&D, 0, &V, &C, -1)) return 1;
    for (int j = 0; j < 5; j++)
        for (int t = 0; t < 5; t++) if (AT(K, t, 0) == AT(D, j, 0)) near(AT(C, j, 0), AT(C0, t, 0), "C");
    return bad;
}
""")
S("B50", "C05", "src/lapack/diag.c",
  [("armas_get_at_unsafe(A, k) * armas_get_at_unsafe(d, k);\n            armas_set_at_unsafe(A, k, alpha * aval);", "armas_get_at_unsafe(A, k) * armas_get_at_unsafe(d, k);\n            armas_set_at_unsafe(A, k, aval);")],
  "a vector multiplied by a diagonal and a scalar other than one", "the scalar is ignored",
  ORD + r"""
int main() {
    M D = fill(4, 1, 4, 1), A = fill(1, 4, 5, 2), B = fill(1, 4, 5, 2);
    if (armas_d_mult_diag(&A, 2.0, &D, ARMAS_RIGHT, 0)) return 1;
    for (int j = 0; j < 4; j++) near(AT(A, 0, j), 2.0 * AT(B, 0, j) * AT(D, j, 0), "A");
    return bad;
}
""")
S("B51", "C04", "src/blas/iamax.c",
  [("    if (imax >= 0) {\n        return ABS(", "    if (imax > 0) {\n        return ABS(")],
  "the element of largest magnitude is the first", "the largest magnitude is reported as zero",
  ORD + r"""
int main() {
    M x = fill(5, 1, 5, 1);
    AT(x, 0, 0) = -100;
    near(armas_d_amax(&x, 0), 100, "amax");
    return bad;
}
""")
