From 4b6529aa06830c937ce267ec7a74690a6860ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 01/42] fix: armas_mscale scales the whole selected triangle

With ARMAS_UPPER only the diagonal was scaled (row views of length one), and
with ARMAS_LOWER|ARMAS_UNIT the last column of a tall matrix was skipped while
a wide one produced views of negative height.
---
 src/blas/mscale.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..d502c2f 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -137,8 +137,8 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        for (c = n; c < m->cols; c++) {
+            armas_submatrix_unsafe(&C, m, 0, c, c+1-n < m->rows ? c+1-n : m->rows, 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
@@ -146,7 +146,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c+n < m->rows; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From 5741396385471cb37b9912d30e24cde3a461c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 02/42] fix: armas_madd stays inside the selected triangle

ARMAS_UPPER|ARMAS_UNIT started one column late and wrote past the last column,
an upper trapezoid was written below its last row, and ARMAS_LOWER|ARMAS_UNIT
missed the last column of a tall matrix.
---
 src/blas/madd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..3b2c17d 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            armas_submatrix_unsafe(&C, A, 0, c, c+1-n < A->rows ? c+1-n : A->rows, 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
@@ -94,7 +94,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c+n < A->rows; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
-- 
2.43.0


From 005ceeacdd875c8b588048ef8fd8ed1678a5ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 03/42] fix: apply and iterate do not leave an upper
 trapezoidal matrix

With ARMAS_UPPER and more columns than rows elements below the last row were
read and written.
---
 src/blas/mapply.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
-- 
2.43.0


From 106a2914d77ccbf78235b93d52e0e66005e84f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 04/42] fix: armas_make_trm sets unit diagonal only inside the
 matrix

With ARMAS_UPPER|ARMAS_UNIT and more columns than rows elements beyond the
last row were set to one.
---
 src/blas/mset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From 2d92633b116648e0ae6f0975d2e70f1b323acad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 05/42] fix: armas_asum does not recurse without end when
 blas1min is zero

---
 src/blas/asum.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blas/asum.c b/src/blas/asum.c
index a1cfd98..486ee06 100644
--- a/src/blas/asum.c
+++ b/src/blas/asum.c
@@ -161,6 +161,8 @@ ABSTYPE armas_asum(const armas_dense_t *x, armas_conf_t *conf)
     case ARMAS_ONAIVE:
         return vec_asum(x, armas_size(x));
     }
+    if (env->blas1min == 0)
+        return vec_asum(x, armas_size(x));
     return vec_asum_recursive(x, armas_size(x), env->blas1min);
 }
 
-- 
2.43.0


From dc2acc791d0414a35046bbc17eb19a5546a652b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 06/42] fix: armas_mvmult with ARMAS_ABS updates the elements
 of the target vector

---
 src/blas/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..fe24b60 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -79,7 +79,7 @@ void gemv_unb_abs(
 
     // Non-Transposed A here
 
-    y = &Y->elems[yinc];
+    y = &Y->elems[0*yinc];
     for (j = 0; j < A->cols-3; j += 4) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
@@ -104,7 +104,7 @@ void gemv_unb_abs(
     if (j < A->cols) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
-        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->cols);
+        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->rows);
     }
 }
 
-- 
2.43.0


From 1d8e6cc6fc70975999d37dd5e94ae6c38c9b63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 07/42] fix: matrix-vector recursion ends when blas2min is less
 than two

---
 src/blas/gemv.c    | 2 +-
 src/blas/ger.c     | 3 ++-
 src/blas/symv.c    | 2 +-
 src/blas/syr2.c    | 2 +-
 src/blas/trmv.c    | 4 ++--
 src/blas/trsv.c    | 4 ++--
 src/blas/updtrmv.c | 2 +-
 7 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index fe24b60..fc8428f 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -204,7 +204,7 @@ void gemv_recursive(
     int nx = armas_size(X);
 
     // ny is rows in A, Y, nx is cols in A, rows in X
-    if (min_mvec_size == 0 || ny < min_mvec_size || nx < min_mvec_size) {
+    if (min_mvec_size < 2 || ny < min_mvec_size || nx < min_mvec_size) {
         gemv_unb(Y, alpha, A, X, flags);
         return;
     }
diff --git a/src/blas/ger.c b/src/blas/ger.c
index 2e9ec47..e23e43e 100644
--- a/src/blas/ger.c
+++ b/src/blas/ger.c
@@ -170,7 +170,8 @@ void update_ger_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (A->rows < min_mvec_size || A->cols < min_mvec_size) {
+    if (min_mvec_size < 2 ||
+        A->rows < min_mvec_size || A->cols < min_mvec_size) {
         update_ger_unb(beta, A, alpha, X, Y);
         return;
     }
diff --git a/src/blas/symv.c b/src/blas/symv.c
index 7127587..9f59048 100644
--- a/src/blas/symv.c
+++ b/src/blas/symv.c
@@ -118,7 +118,7 @@ void symv_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     int N = armas_size(Y);
 
-    if (N < blas2min) {
+    if (blas2min < 2 || N < blas2min) {
         symv_unb(Y, alpha, A, X, flags);
         return;
     }
diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..8105e09 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -77,7 +77,7 @@ void update_syr2_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (A->rows < min_mvec_size) {
+    if (min_mvec_size < 2 || A->rows < min_mvec_size) {
         update_syr2_unb(beta, A, alpha, X, Y, flags);
         return;
     }
diff --git a/src/blas/trmv.c b/src/blas/trmv.c
index dbb9e5d..fadb704 100644
--- a/src/blas/trmv.c
+++ b/src/blas/trmv.c
@@ -197,7 +197,7 @@ void trmv_forward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (min_mvec_size < 2 || A->cols < min_mvec_size) {
         trmv_unb(X, alpha, A, flags);
         return;
     }
@@ -239,7 +239,7 @@ void trmv_backward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (min_mvec_size < 2 || A->cols < min_mvec_size) {
         trmv_unb(X, alpha, A, flags);
         return;
     }
diff --git a/src/blas/trsv.c b/src/blas/trsv.c
index 3a83b50..fe759b0 100644
--- a/src/blas/trsv.c
+++ b/src/blas/trsv.c
@@ -240,7 +240,7 @@ void trsv_forward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (min_mvec_size < 2 || A->cols < min_mvec_size) {
         trsv_unb(X, alpha, A, flags);
         return;
     }
@@ -290,7 +290,7 @@ void trsv_backward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (min_mvec_size < 2 || A->cols < min_mvec_size) {
         trsv_unb(X, alpha, A, flags);
         return;
     }
diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..b58820e 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -77,7 +77,7 @@ void update_trmv_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (min_mvec_size <= 0 ||
+    if (min_mvec_size < 2 ||
         A->rows < min_mvec_size || A->cols < min_mvec_size) {
         update_trmv_unb(beta, A, alpha, X, Y, flags);
         return;
-- 
2.43.0


From 4a704a6105be32926713cb833ebbc58d01f68383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 08/42] fix: armas_mvupdate2_sym rejects vectors that do not
 match the matrix

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index 8105e09..6a51c88 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 5cc8ba19c30f4e93df4239af973515f8c7c48596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 09/42] fix: recursive triangular rank update covers
 trapezoidal matrices

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index b58820e..9bbf676 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -76,6 +76,8 @@ void update_trmv_recursive(
 {
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
+    // diagonal of trapezoidial matrix is diagonal of its blocks
+    int nd = (A->rows < A->cols ? A->rows : A->cols)/2;
 
     if (min_mvec_size < 2 ||
         A->rows < min_mvec_size || A->cols < min_mvec_size) {
@@ -85,13 +87,13 @@ void update_trmv_recursive(
 
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, nd, nd, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, nd, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, nd, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From ca0b8758ca7a25e1883b2f252c8e391909e04c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 10/42] fix: mat_continue_3x3to2x2 gives the bottom left block
 its own columns

---
 src/include/partition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/partition.h b/src/include/partition.h
index f419a4f..6a88238 100644
--- a/src/include/partition.h
+++ b/src/include/partition.h
@@ -489,7 +489,7 @@ void mat_continue_3x3to2x2(armas_dense_t *ATL, armas_dense_t *ATR,
         if (ATR)
             armas_submatrix_unsafe(ATR, A, 0, kc, kr, A->cols-kc);
         if (ABL)
-            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, A->cols-kc);
+            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, kc);
         armas_submatrix_unsafe(ABR, A, kr, kc, A->rows-kr, A->cols-kc);
         break;
     }
-- 
2.43.0


From 247e43822a0657f04409b48b46734e3a6b4f9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 11/42] fix: cache buffer split yields non-empty blocks that do
 not overlap or exceed the buffer

Extreme ratios of the configured block sizes gave empty blocks (endless loop in
matrix multiply), blocks with less than a cacheline of rows (overlapping packing
buffers as columns are at least a cacheline apart) or blocks past the buffer.
---
 src/base/cache.c | 55 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..d9a31df 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -150,6 +150,30 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
     }
 }
 
+/*
+ * Row count of blocks: full cachelines, at least one and no more than fit in max rows.
+ */
+static inline
+size_t cacheline_rows(size_t rows, size_t max, size_t clp)
+{
+    if (rows > max)
+        rows = max;
+    rows -= rows % clp;
+    return rows < clp ? clp : rows;
+}
+
+/*
+ * Column count of block: multiple of 4, at least 4 and at most max.
+ */
+static inline
+size_t column_count(size_t cols, size_t max)
+{
+    if (cols > max)
+        cols = max;
+    cols &= ~0x3;
+    return cols < 4 ? 4 : cols;
+}
+
 /*
  * Divide buffer with size 'S' bytes to 2 blocks of size 'k*m' and 'k*n' items
  * where item size is 'p' bytes.
@@ -194,25 +218,24 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
                        void **aptr, void **bptr, size_t *mb,
                        size_t *nb, size_t *kb, size_t p)
 {
-    size_t clp, kn, mn, nn, S = cbuf->len/p;
+    size_t clp = CACHELINE/p, kn, mn, nn, cols, S = cbuf->len/p;
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = clp;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
         kn = (size_t)sqrt(b*S/(1.0+a));
-
-        clp = CACHELINE/p;
-        if (kn > clp)
-            kn -= kn % clp;
+        kn = cacheline_rows(kn, S/8, clp);
 
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
+        cols = (S/kn) & ~0x3;
+        nn = column_count(nn, cols - 4);
+        mn = column_count(mn, cols - nn);
     }
     *mb = mn;
     *nb = nn;
@@ -311,11 +334,12 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
                        void **aptr, void **bptr, void **cptr,
                        size_t *mb, size_t *nb, size_t *kb, size_t p)
 {
-    size_t clp, kn, mn, nn, S = cbuf->len/p;
+    size_t clp = CACHELINE/p, kn, mn, nn, cols, S = cbuf->len/p;
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = clp;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -324,16 +348,15 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
             b = a;
 
         kn = (size_t)sqrt(b*S/(2.0+a));
-
-        clp = CACHELINE/p;
-        if (kn > clp)
-            kn -= kn % clp;
+        kn = cacheline_rows(kn, S/12, clp);
 
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
+        cols = (S/kn) & ~0x3;
+        nn = column_count(nn, (cols - 4)/2);
+        mn = column_count(mn, cols - 2*nn);
+        mn = column_count(mn, kn);
     }
     *mb = mn;
     *nb = nn;
-- 
2.43.0


From 3e6ffd0a0e42cdd9989f9ddd55d7388f3046385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/42] fix: fixed size cache blocks are never empty and stay
 inside the buffer

With fixed block sizes mb or nb below four gave empty blocks (endless loop), the size
check used the requested size of the buffer and not its aligned length, and the result
block of a three-way split had more rows than its stride.
---
 src/base/cache.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index d9a31df..a92b689 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -252,8 +252,10 @@ static
 int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
+    mb = mb < 4 ? 4 : mb;
+    nb = nb < 4 ? 4 : nb;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -378,14 +380,19 @@ static
 int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
+    mb = mb < 4 ? 4 : mb;
+    nb = nb < 4 ? 4 : nb;
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
         kb -= kb % (CACHELINE/p);
     if (kb < 4)
         kb = 4;
+    // m <= k as result block is m*n with row stride of k
+    if (mb > kb && mb > (CACHELINE/p))
+        mb = kb > (CACHELINE/p) ? kb : (CACHELINE/p);
     mb &= ~0x3;
     nb &= ~0x3;
     cache->KB = kb;
-- 
2.43.0


From c9f6e4d508f52da6271f88a20c9839589ff53425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 13/42] fix: armas_mult_sym keeps diagonal blocks inside the
 packing buffers

Diagonal blocks of A were packed over each other when KB < MB, and past
the first packing buffer when NB > MB in multiplication from right.
---
 src/blas/symm.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..1b230c7 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -46,17 +46,18 @@ void mult_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // A spans columns of C; it is the second operand and has space for NB columns
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_mult_kernel_inner(C, alpha, &Bcpy, &Acpy, cache->rb);
@@ -121,6 +122,9 @@ void armas_mult_symm_left(
     }
     mb = C->rows < mcache->MB ? C->rows : mcache->MB;
     nb = C->cols < mcache->NB ? C->cols : mcache->NB;
+    // diagonal block is packed to columns of KB elements
+    if (mb > mcache->KB)
+        mb = mcache->KB;
     for (i = 0; i < C->rows; i += mb) {
         nI = C->rows - i < mb ? C->rows - i : mb;
 
@@ -220,6 +224,9 @@ void armas_mult_symm_right(
 
     int mb = C->rows < mcache->MB ? C->rows : mcache->MB;
     int nb = C->cols < mcache->NB ? C->cols : mcache->NB;
+    // diagonal block is packed to columns of KB elements
+    if (nb > mcache->KB)
+        nb = mcache->KB;
     for (ic = 0; ic < C->cols; ic += nb) {
         nC = C->cols - ic < nb ? C->cols - ic : nb;
 
-- 
2.43.0


From 0fd3fafe3ebdfb74e07ff7e24e0c81136a498130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 14/42] fix: matrix-matrix recursions end when block size limit
 is less than two

---
 src/blas/syr2k.c    | 4 ++--
 src/blas/trmm_rec.c | 8 ++++----
 src/blas/trsm_rec.c | 8 ++++----
 src/blas/updtrmm.c  | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..f26807e 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
diff --git a/src/blas/trmm_rec.c b/src/blas/trmm_rec.c
index 164729e..1230159 100644
--- a/src/blas/trmm_rec.c
+++ b/src/blas/trmm_rec.c
@@ -54,7 +54,7 @@ void mult_left_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -97,7 +97,7 @@ void mult_left_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -142,7 +142,7 @@ void mult_right_forward(
     //int ops;
     //int N = A->cols;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -186,7 +186,7 @@ void mult_right_backward(
     //armas_dense_t b0, b1, a0, a1;
     //int N = A->cols;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..d4f6909 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -59,7 +59,7 @@ void solve_left_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_LEFT);
         return;
     }
@@ -108,7 +108,7 @@ void solve_left_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_LEFT);
         return;
     }
@@ -143,7 +143,7 @@ void solve_right_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BL, BR;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_RIGHT);
         return;
     }
@@ -177,7 +177,7 @@ void solve_right_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BL, BR;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_RIGHT);
         return;
     }
diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..b554541 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -118,7 +118,7 @@ void update_upper_recursive(
     // can upper triangular (M == N) or upper trapezoidial (N > M)
     int nb = min(C->rows, C->cols);
 
-    if (nb < min_mblock_size) {
+    if (nb < 2 || nb < min_mblock_size) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
@@ -230,7 +230,7 @@ void update_lower_recursive(
     int nb = min(C->rows, C->cols);
 
     //printf("update_lower_rec: M=%d, N=%d, nb=%d\n", M, N, nb);
-    if (nb < min_mblock_size) {
+    if (nb < 2 || nb < min_mblock_size) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
-- 
2.43.0


From 93dc7ba8948b50141e857aa7407124740284d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 15/42] fix: recursive update of upper triangular matrix with
 odd size

Block right of the diagonal block had one row too many and that row was
updated twice.
---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index b554541..9adf461 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From ced9715e3d38c9dab3710e8ead66132ae2c06b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 16/42] fix: recursive triangular solve applies alpha once only

---
 src/blas/trsm_rec.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d4f6909..db44f5f 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -18,7 +18,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_solve_unb) && defined(armas_mult_kernel_nc)
+#if defined(armas_solve_unb) && defined(armas_mult_kernel)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 54fd9869b59ca09062a5fbc3ce5dca6db15180f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 17/42] fix: armas_solve_trm releases its internal buffer

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From 2b6cba7c804f1ff069cb5b87eab546c1e1540e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 18/42] fix: armas_gvleft and armas_gvright clip the rotated
 range to the matrix for two different rows or columns

---
 src/lapack/givens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..d65b08e 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
-- 
2.43.0


From 01468fb36eec229ccc2edab5a9c1f66e722fb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 19/42] fix: armas_houseapply checks the reflector against the
 side it is applied from and treats a missing tau as the unscaled form

---
 src/lapack/house.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..f0f8878 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -480,8 +480,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from right and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -502,7 +502,7 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    int scaled = tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -531,17 +531,17 @@ int armas_houseapply(armas_dense_t * A,
     int ok = 0;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < ((flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols)) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
-- 
2.43.0


From d89db71d1c377cce09100c5ff31c867c2b02b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 20/42] fix: armas_house leaves a zero reflector vector when
 there is nothing to annihilate

---
 src/lapack/house.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index f0f8878..8082f99 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -185,7 +185,9 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
 
     normx = armas_nrm2(x1, cf);
     if (normx == 0.0) {
+        // H is the unit matrix: zero reflector vector
         armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        armas_set_unsafe(x0, 0, 0, 0.0);
         return 0;
     }
 
-- 
2.43.0


From ebf320fb5d51a06bc5995e46b1ae1f69729c2270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 21/42] fix: armas_wsetpos restores the position of a fully
 reserved work buffer

---
 src/include/armas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index 8109149..fff324f 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -659,7 +659,7 @@ void *armas_wptr(const armas_wbuf_t *W)
 __ARMAS_INLINE
 void armas_wsetpos(armas_wbuf_t *W, size_t pos)
 {
-    if (W && pos < W->bytes)
+    if (W && pos <= W->bytes)
         W->offset = pos;
 }
 
-- 
2.43.0


From 8d52472152e3dcd54b31ff0eec3c1f421b3fa817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 22/42] fix: work buffer reservations whose size wraps around
 are refused

---
 src/include/armas.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index fff324f..35968a9 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -610,13 +610,15 @@ void *armas_wreserve_bytes(armas_wbuf_t *W, size_t nbytes)
 __ARMAS_INLINE
 void *armas_wreserve(armas_wbuf_t *W, size_t count, size_t sz)
 {
+    if (sz > 0 && count > (size_t)-1 / sz)
+        return (void *)0;
     return armas_wreserve_bytes(W, count * sz);
 }
 
 __ARMAS_INLINE
 void *armas_wreserve_bits(armas_wbuf_t *W, size_t count)
 {
-    size_t bc = __nbits_aligned8(count);
+    size_t bc = (count >> 3) + ((count & 0x7) != 0 ? 1 : 0);
     return armas_wreserve_bytes(W, bc);
 }
 
-- 
2.43.0


From 4945c3633fa77f93aead34bd5a1c96072574df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 23/42] fix: block start index of large operands does not
 overflow int

---
 src/include/accel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/accel.h b/src/include/accel.h
index 0a039db..3538404 100644
--- a/src/include/accel.h
+++ b/src/include/accel.h
@@ -99,7 +99,8 @@ int armas_ac_block_index(int n, int nblocks, int ntotal)
 {
     if (n == nblocks)
         return ntotal;
-    return (n*ntotal/nblocks) - ((n*ntotal/nblocks) & 0x3);
+    int64_t start = (int64_t)n*ntotal/nblocks;
+    return (int)(start - (start & 0x3));
 }
 
 #ifdef ARMAS_DTYPE_H
-- 
2.43.0


From 07bd7eca86c43c3b5e33729ac329abe23bc078fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 24/42] fix: threaded operations report the error of a failed
 block

---
 src/threaded/gemm.c | 2 ++
 src/threaded/symm.c | 2 ++
 src/threaded/trmm.c | 2 ++
 src/threaded/trsm.c | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..4fe53dc 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -136,6 +136,8 @@ int threaded_mult_recursive(
 
     //printf("wait thread %d\n", thread);
     pthread_join(th, NULL);
+    if (err == 0)
+        err = -args.error;
     return err;
 }
 
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..54bc04b 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -131,6 +131,8 @@ int threaded_mult_sym_recursive(
     err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (err == 0)
+        err = -args.error;
     return err;
 }
 
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..319f4f1 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -112,6 +112,8 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (err == 0)
+        err = -args.error;
     return err;
 }
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..f3b3221 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -112,6 +112,8 @@ int threaded_solve_trm_recursive(
     err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
 
     pthread_join(th, NULL);
+    if (err == 0)
+        err = -args.error;
     return err;
 }
 
-- 
2.43.0


From 4680b12644103e86a613aa6a9bffef095de78dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 25/42] fix: threaded multiplication releases the buffers of
 its threads

---
 src/threaded/gemm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 4fe53dc..f47bcf5 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -86,6 +86,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
-- 
2.43.0


From d26889a48d96e8fc1265825c5a0182a62292a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 26/42] fix: blocks of a multiplication with conjugate
 transposed operands

---
 src/threaded/gemm.c | 8 +++++++-
 src/workers/gemm.c  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index f47bcf5..357c7be 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,7 +47,13 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB);
+    if (blas->flags & ARMAS_CTRANSA)
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & ARMAS_CTRANSB)
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..6b4b168 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,7 +50,13 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB);
+    if (blas->flags & ARMAS_CTRANSA)
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & ARMAS_CTRANSB)
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-- 
2.43.0


From baa74ca96ea33ce0602ee57e14caef53334ba272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 27/42] fix: a worker stopped before its thread has started
 terminates

---
 src/workers/workers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..32196e8 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -83,7 +83,6 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
     while (W->running) {
         taskq_read(&W->inqueue, (void **)&T);
         if (!T) {
@@ -113,6 +112,7 @@ static
 void worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
+    W->running = 1;
     pthread_create(&W->tid, NULL, worker_thread, W);
     if (W->cpuid != -1) {
         // set cpu affinity
-- 
2.43.0


From eeea6ac2b42c62b7030fa2b39dc028108808b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 28/42] fix: tasks are not released while they are in the queue
 of a worker

---
 src/workers/workers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..3d127c9 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -41,13 +41,15 @@ static inline
 int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
     int refcount;
-    for (int k = 0; k < 50; k++) {
+    while (1) {
         refcount = 0;
         for (int i = 0; i < ntask; i++) {
             refcount += tasks[i].task.wcnt;
         }
         if (refcount == 0)
             break;
+        // some task is still in the queue of a worker
+        sched_yield();
     }
     return refcount;
 }
-- 
2.43.0


From bf98833fe54d09a819adaa3b72056211014fb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 29/42] fix: waiting for a counter survives spurious wakeups

---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 6f2adb6c6089dc37c212dc97b5f199c42f6e4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 30/42] fix: a writer waiting for a full task queue is woken
 when an item is removed

---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From ba831ca95ddf236ebef3a8ac7c77de469b0e79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 31/42] fix: transient workers do not leave a task in the queue
 when the last of them ends

---
 src/workers/transient.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..03aeaf0 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,9 +29,6 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
 
 struct armas_ac_sched_transient;
 
@@ -61,17 +58,23 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
+        pthread_mutex_lock(&sc->task_queue.mlock);
+        if (sc->task_queue.count == 0) {
+            /* Leave while holding the lock; a task appended later finds this thread gone. */
+            self->running = 0;
+            sc->nrunning--;
+            pthread_mutex_unlock(&sc->task_queue.mlock);
             break;
+        }
+        if (taskq_remove(&sc->task_queue, (void **)&T))
+            pthread_cond_broadcast(&sc->task_queue.full);
+        pthread_mutex_unlock(&sc->task_queue.mlock);
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -109,14 +112,21 @@ int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
+
+    pthread_mutex_lock(&sched->task_queue.mlock);
     if (sched->nrunning < sched->nworker) {
         for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
         sched->threads[k].running = 1;
         sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        if (pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]) == 0) {
+            pthread_detach(sched->threads[k].tid);
+            sched->nrunning++;
+        } else {
+            sched->threads[k].running = 0;
+        }
     }
+    pthread_mutex_unlock(&sched->task_queue.mlock);
     return 0;
 }
 
-- 
2.43.0


From 3fffab894c4a03d38c2bbc0e0353df80a6cdcf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 32/42] fix: stopping workers that have not been started does
 nothing

---
 src/workers/workers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 32196e8..1379657 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -166,6 +166,8 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    if (!sched->status)
+        return 0;
     for (int i = 0; i < sched->nworker; i++) {
         sched->workers[i].running = 0;
         taskq_write(&sched->workers[i].inqueue, NULL);
-- 
2.43.0


From defae58af9d474b51fea9ce5284128d2e558db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 33/42] fix: a sequence of rotations stays inside the matrix
 and tells how many it applied

---
 src/lapack/givens.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index d65b08e..94a5be1 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-1-start) for left and
+ *      min(nrot, A->cols-1-start) for right.
  *
  * @ingroup lapack
  */
@@ -234,16 +234,16 @@ int armas_gvupdate(armas_dense_t * A, int start,
 
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            end = min(A->rows - 1, end);
+            for (k = end, n = end - start; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            end = min(A->cols - 1, end);
+            for (k = end, n = end - start; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
@@ -253,7 +253,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
+            end = min(A->rows - 1, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -261,7 +261,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
+            end = min(A->cols - 1, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -270,7 +270,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return end > start ? end - start : 0;
 }
 
 
-- 
2.43.0


From 8aac6cbde9c8038cbb8dc2ab040b2e720d069d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 34/42] fix: Cholesky of a lower triangle reports a zero pivot
 instead of dividing by it

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From f0a5d43831fd3afc1aca71d1072d8e6a61d3013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 35/42] fix: LU and Cholesky report the failure of an operation
 on a block instead of going on with what it left

---
 src/lapack/chol.c | 36 ++++++++++++++++++++-----------
 src/lapack/lu.c   | 55 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 64 insertions(+), 27 deletions(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 3aa5547..0e9bbd0 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -86,7 +86,7 @@ int blk_cholfactor_lower(armas_dense_t * A, int lb,
                            armas_conf_t * cf)
 {
     armas_dense_t ATL, ABR, A00, A11, A21, A22;
-    int err = 0;
+    int rc, err = 0;
 
     EMPTY(A00);
 
@@ -106,11 +106,15 @@ int blk_cholfactor_lower(armas_dense_t * A, int lb,
             err = err == 0 ? -1 : err;
         }
         // A21 = A21 * tril(A11).-T
-        armas_solve_trm(
+        rc = armas_solve_trm(
             &A21, ONE, &A11, ARMAS_RIGHT | ARMAS_LOWER | ARMAS_TRANSA, cf);
+        if (rc < 0)
+            return rc;
 
         // A22 = A22 - A21*A21.T
-        armas_update_sym(ONE, &A22, -ONE, &A21, ARMAS_LOWER, cf);
+        rc = armas_update_sym(ONE, &A22, -ONE, &A21, ARMAS_LOWER, cf);
+        if (rc < 0)
+            return rc;
 
         // --------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -181,7 +185,7 @@ static
 int blk_cholfactor_upper(armas_dense_t * A, int lb, armas_conf_t * cf)
 {
     armas_dense_t ATL, ABR, A00, A11, A12, A22;
-    int err = 0;
+    int rc, err = 0;
 
     EMPTY(A00);
     mat_partition_2x2(
@@ -200,12 +204,16 @@ int blk_cholfactor_upper(armas_dense_t * A, int lb, armas_conf_t * cf)
             err = err == 0 ? -1 : err;
         }
         // A12 = tril(A11).-T * A12
-        armas_solve_trm(
+        rc = armas_solve_trm(
             &A12, ONE, &A11, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        if (rc < 0)
+            return rc;
 
         // A22 = A22 - A12.T*A12
-        armas_update_sym(
+        rc = armas_update_sym(
             ONE, &A22, -ONE, &A12, ARMAS_UPPER | ARMAS_TRANSA, cf);
+        if (rc < 0)
+            return rc;
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
             &ATL, __nil,
@@ -427,7 +435,7 @@ int armas_cholsolve(armas_dense_t * B,
                       const armas_pivot_t * P,
                       int flags, armas_conf_t * cf)
 {
-    int ok;
+    int ok, err;
     if (!cf)
         cf = armas_conf_default();
 
@@ -444,14 +452,18 @@ int armas_cholsolve(armas_dense_t * B,
 
     if (flags & ARMAS_LOWER) {
         // solve A*X = B; X = A.-1*B == (L*L.T).-1*B == L.-T*(L.-1*B)
-        armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_LOWER, cf);
-        armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_LOWER|ARMAS_TRANSA, cf);
+        err = armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_LOWER, cf);
+        if (err < 0)
+            return err;
+        err = armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_LOWER|ARMAS_TRANSA, cf);
     } else {
         // solve A*X = B;  X = A.-1*B == (U.T*U).-1*B == U.-1*(U.-T*B)
-        armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_UPPER|ARMAS_TRANSA, cf);
-        armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_UPPER, cf);
+        err = armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_UPPER|ARMAS_TRANSA, cf);
+        if (err < 0)
+            return err;
+        err = armas_solve_trm(B, ONE, A, ARMAS_LEFT|ARMAS_UPPER, cf);
     }
-    return 0;
+    return err;
 }
 
 #endif	/* ARMAS_PROVIDES && ARMAS_REQUIRES */
diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..4ef261a 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -68,6 +68,7 @@ static
 int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, A11, A12, A21, A22;
+    int err;
 
     EMPTY(A00);
 
@@ -84,12 +85,18 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
         // A11 = LU(A11)
         unblk_lufactor_nopiv(&A11, conf);
         // A12 = trilu(A11)*A12.-1
-        armas_solve_trm(&A12, ONE, &A11,
+        err = armas_solve_trm(&A12, ONE, &A11,
                           ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, conf);
+        if (err < 0)
+            return err;
         // A21 = A21.-1*triu(A11)
-        armas_solve_trm(&A21, ONE, &A11, ARMAS_RIGHT | ARMAS_UPPER, conf);
+        err = armas_solve_trm(&A21, ONE, &A11, ARMAS_RIGHT | ARMAS_UPPER, conf);
+        if (err < 0)
+            return err;
         // A22 = A22 - A21*A12
-        armas_mult(ONE, &A22, -ONE, &A21, &A12, ARMAS_NONE, conf);
+        err = armas_mult(ONE, &A22, -ONE, &A21, &A12, ARMAS_NONE, conf);
+        if (err < 0)
+            return err;
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
             &ATL, __nil,
@@ -113,7 +120,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
     armas_dense_t ATL, ATR, ABL, ABR, A00, a01, a10, a11, a21, A20, A22;
     armas_dense_t AL, AR, A0, a1, A2, aB0;
     armas_pivot_t pT, pB, p0, p1, p2;
-    int pi, err = 0;
+    int pi, rc, err = 0;
     DTYPE a11val, aa;
 
     EMPTY(a11);
@@ -180,8 +187,10 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
     if (ABR.cols > 0) {
         // here A.rows < A.cols; handle the right columns
         armas_pivot_rows(&ATR, P, ARMAS_PIVOT_FORWARD, conf);
-        armas_solve_trm(&ATR, ONE, &ATL,
+        rc = armas_solve_trm(&ATR, ONE, &ATL,
                           ARMAS_LEFT | ARMAS_UNIT | ARMAS_LOWER, conf);
+        if (rc < 0)
+            return rc;
     }
     return err;
 }
@@ -198,7 +207,7 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
     armas_dense_t ATL, ATR, ABL, ABR, A00, A01, A10, A11, A21, A20, A22;
     armas_dense_t AL, AR, A0, A1, A2, AB0;
     armas_pivot_t pT, pB, p0, p1, p2;
-    int k, pi, err = 0;
+    int k, pi, rc, err = 0;
 
     EMPTY(A0);
     EMPTY(AL);
@@ -225,12 +234,18 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // A. apply previous pivots and updates to current column
         armas_pivot_rows(&A1, &p0, ARMAS_PIVOT_FORWARD, conf);
         // a. A01 = trilu(A00) \ A01
-        armas_solve_trm(&A01, ONE, &A00,
+        rc = armas_solve_trm(&A01, ONE, &A00,
                           ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, conf);
+        if (rc < 0)
+            return rc;
         // b. A11 = A11 - A10*A01
-        armas_mult(ONE, &A11, -ONE, &A10, &A01, ARMAS_NONE, conf);
+        rc = armas_mult(ONE, &A11, -ONE, &A10, &A01, ARMAS_NONE, conf);
+        if (rc < 0)
+            return rc;
         // c. A21 = A21 - A20*A01
-        armas_mult(ONE, &A21, -ONE, &A20, &A01, ARMAS_NONE, conf);
+        rc = armas_mult(ONE, &A21, -ONE, &A20, &A01, ARMAS_NONE, conf);
+        if (rc < 0)
+            return rc;
         // HERE:
         // current block has been updated with effects of earlier computations.
         // B. factor ( A11 )
@@ -259,8 +274,10 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
     if (ABR.cols > 0) {
         // here A.rows < A.cols; handle the right columns
         armas_pivot_rows(&ATR, P, ARMAS_PIVOT_FORWARD, conf);
-        armas_solve_trm(&ATR, ONE, &ATL,
+        rc = armas_solve_trm(&ATR, ONE, &ATL,
                           ARMAS_LEFT | ARMAS_UNIT | ARMAS_LOWER, conf);
+        if (rc < 0)
+            return rc;
     }
     return err;
 }
@@ -342,7 +359,7 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
 int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
                     armas_pivot_t * P, int flags, armas_conf_t * cf)
 {
-    int ok;
+    int ok, err;
     if (!cf)
         cf = armas_conf_default();
 
@@ -358,16 +375,24 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
 
     if (flags & ARMAS_TRANS) {
         // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
+        err = armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
-        armas_solve_trm(
+        if (err < 0)
+            return err;
+        err = armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        if (err < 0)
+            return err;
     } else {
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
-        armas_solve_trm(
+        err = armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-        armas_solve_trm(
+        if (err < 0)
+            return err;
+        err = armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER, cf);
+        if (err < 0)
+            return err;
     }
     return 0;
 }
-- 
2.43.0


From 5ad9541a289c27f0ef17d58d42867313610308ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 36/42] fix: the transposed system is solved with the factors,
 and the pivots, in the right order

---
 src/lapack/lu.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 4ef261a..f300686 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -368,22 +368,25 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
+        // solve A.T*X = B; X = A.-T*B == (U.T*L.T*P).-1*B == P.-1*(L.-T*(U.-T*B))
         err = armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+            B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
         if (err < 0)
             return err;
         err = armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
         if (err < 0)
             return err;
+        if (P) {
+            // pivots; apply to solution in reverse order.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         err = armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From 549ca47fe417a475db074c7f12c141c841168228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 37/42] fix: LU with pivoting reports a zero pivot wherever it
 appears

---
 src/lapack/lu.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index f300686..4f8623c 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -152,7 +152,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -251,7 +251,9 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        rc = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (rc < 0)
+            err = rc;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From b6b589eaf1abbdf66fa1bb5794d79a547a2b1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 38/42] fix: armas_iamin stepped over the first element by one,
 not by the vector's stride

---
 src/blas/iamax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/iamax.c b/src/blas/iamax.c
index dd639b3..0403ddf 100644
--- a/src/blas/iamax.c
+++ b/src/blas/iamax.c
@@ -126,9 +126,9 @@ int vec_iamin2(const armas_dense_t *X,  int N)
 
     xinc = X->rows == 1 ? X->step : 1;
     ep = X->elems;
-    min = ABS(*ep++);
+    min = ABS(*ep);
     ix = 0;
-    for (i = 1; i < N; ++i, ep += xinc) {
+    for (i = 1, ep += xinc; i < N; ++i, ep += xinc) {
         c0 = ABS(*ep);
         if (c0 < min) {
             ix = i;
-- 
2.43.0


From 31068faa725217912ea3861a6c5341a317734110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 39/42] fix: quicksort looped forever on two elements equal to
 the pivot and read past the end of the vector

---
 src/lapack/qsort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..b231f2b 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,15 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +115,15 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From a352f80331ece221927b03f91ec17a28e9616716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 40/42] fix: sorting a vector on absolute values lost the signs
 of its elements

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From 441bc2762619242506945cb3aeb00858fca4ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 41/42] fix: armas_mult_diag and armas_solve_diag refused
 matrices of one row or one column

---
 src/lapack/diag.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..b4c81dd 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,11 +64,7 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -147,11 +143,7 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
-- 
2.43.0


From b96bef9fb922de0bc2901612dc650f5e4fb9b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 42/42] fix: armas_solve_diag of rows or columns divided by
 alpha instead of multiplying by it

---
 src/lapack/diag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index b4c81dd..cfb82aa 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -164,9 +164,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = alpha / armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -179,9 +179,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = alpha / armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, aval, conf);
         }
         break;
     }
-- 
2.43.0

