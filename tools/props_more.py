LATER = "not reached yet: no contract proved so far"

p("C01", "Element access and views address exactly the described part of a matrix",
  "Reading or writing an element, and taking a sub-matrix, row, column, diagonal or vector view, addresses exactly the storage the indices describe, with negative indices counted from the end. A negative size means the part that remains. An empty or missing matrix reads as zero, ignores writes and gives empty views, and a view whose start and size lie inside its parent never reaches outside it.",
  [INP], "all shapes, strides and index arguments", "Tests take a handful of in-range views.",
  ["src/include/matrix.h", "src/base/matrix.c"], [("inline accessors and view constructors", "matrix.h")], claim=VC, note=UNB)
p("C02", "Partitioning covers a matrix with disjoint blocks at every step",
  "Splitting a matrix or vector into blocks, repartitioning to expose the next block and merging back always yields blocks that tile the matrix exactly, without overlap or gap, in every direction and for every block size. Stepping through a matrix visits every row and column once and ends with the moving part empty.",
  [INP], "all sizes, directions and block sizes", "Only indirectly exercised by factorisation tests.",
  ["src/include/partition.h", "src/base/partition.c"], [("partition/repartition/continue", "partition.h, partition.c")], claim=VC, note=UNB)
p("C06", "Matrix-vector products and rank updates compute their formula",
  "General and symmetric matrix-vector products (plain, transposed, absolute value variants) and rank-1 and rank-2 updates (general, symmetric, triangular part) leave exactly the defined value in every destination element for all shapes, strides, vector orientations, scalars and recursion thresholds. Elements of the unselected triangle, of storage outside the matrix and of the inputs do not change, and operands of wrong shape are rejected.",
  [INP, CFG], "all shapes, strides, orientations, flags, scalars and thresholds", SAMPLE,
  ["src/blas/gemv.c", "src/blas/ger.c", "src/blas/symv.c", "src/blas/syr.c", "src/blas/syr2.c", "src/blas/updtrmv.c"],
  [("unrolled column kernels", "gemv.c"), ("recursive halving", "gemv_recursive, symv, ger, syr2")], claim=VC, note=UNB)
p("C07", "Triangular vector products and solves are exact inverses of each other",
  "Multiplying a vector by a triangular matrix and solving a triangular system give the mathematically defined result for upper and lower, unit and non-unit, plain and transposed matrices of every size, stride and recursion threshold, reading only the named triangle. Solving after multiplying restores the vector whenever the diagonal is non-zero. Operands of wrong shape are rejected.",
  [INP, CFG], "all sizes, flags, strides and thresholds", SAMPLE,
  ["src/blas/trmv.c", "src/blas/trsv.c"], [("unblocked and recursive variants", "trmv.c, trsv.c")], claim=VC, note=UNB)
p("C08", "Matrix-matrix multiply computes C := beta*C + alpha*op(A)*op(B)",
  "For all shapes, strides, transpose and absolute value flags, scalars and cache blocking parameters the result of a matrix-matrix multiply is the defined one in every element of C and nothing else changes. The outcome does not depend on the blocking configuration.",
  [INP, CFG], "all shapes, flags, scalars and blocking parameters", SAMPLE,
  ["src/blas/gemm.c", "src/blas/kernel.c", "src/include/matcpy.h", "src/include/x86_64/mult_fma_f64.h"],
  [("cache blocking and packing", "kernel.c"), ("FMA micro kernels with remainders", "mult_fma_f64.h")], claim=VC, note=UNB)
p("C09", "Structured matrix products, updates and triangular solves are correct",
  "Symmetric multiply, symmetric rank-k and rank-2k updates, triangular multiply and triangular solve with many right sides produce the defined result for each side, triangle, unit and transpose option, all sizes and all blocking parameters. Only the named triangle of a structured operand is read or written.",
  [INP, CFG], "all shapes, flags, scalars and blocking parameters", SAMPLE,
  ["src/blas/symm.c", "src/blas/syrk.c", "src/blas/syr2k.c", "src/blas/trmm.c", "src/blas/trsm.c", "src/blas/updtrmm.c"],
  [("unblocked, recursive and blocked variants", "trmm_*.c, trsm_*.c")], claim=VC, note=UNB)
p("C10", "Cache buffer partitioning never overlaps or overflows",
  "For every legal cache size and block configuration the per-thread cache buffer is split into blocks that lie inside the buffer, do not overlap, and are large enough for the block sizes reported to the caller.",
  [CFG], "all cache sizes and block size settings", "Tests run one configuration.",
  ["src/base/cache.c", "src/include/cache.h", "src/base/env.c"], [("armas_cache_setup*, armas_cbuf_split*", "cache.c")], claim=VC, note=UNB)
p("C11", "Parallel work is split into blocks that cover the result exactly once",
  "For every matrix size, every number of threads, tasks or tiles and every combination of flags, the index ranges handed out are in order, disjoint and together cover the whole result, so each element is computed by exactly one block, and the threaded products and solves (mult, mult_sym, mult_trm, solve_trm) and the worker product give exactly what the unthreaded operation is specified to give. A thread or task gets arguments of its own that nobody changes while it runs, is waited for, gives its packing buffer back, and a block that could not be computed is reported as an error.",
  [INP, CFG], "all sizes, block counts, flags and core counts", "Tests use a few sizes and thread counts.",
  ["src/include/accel.h", "src/threaded/gemm.c", "src/threaded/symm.c", "src/threaded/trmm.c", "src/threaded/trsm.c", "src/threaded/entry.c", "src/workers/gemm.c"],
  [("armas_ac_block_index", "accel.h"), ("threaded_*_recursive, compute_block", "threaded"), ("schedule_blocks, schedule_tiles, compute_block", "workers/gemm.c")],
  claim=VC, note=UNB + " A created thread or scheduled task is run to its end where it is created or scheduled: that the order does not matter follows from the contracts (a block reads and writes its own part of the result only). The scheduler itself is trusted (C22).")
p("C12", "Work buffers are handed out disjointly and within their size",
  "Reserving bytes, elements or bits from a work buffer gives the next unused bytes, so regions never overlap and lie inside the buffer, or fails without any effect; this holds for every requested size, including those whose byte count does not fit the machine word. Restoring a position told earlier (also that of a full buffer), resetting, zeroing and releasing do exactly that, and memory is released once.",
  ["histories", INP], "all buffer sizes, states and requested sizes, hence all sequences of reserve, save, restore and release", "Tests never exhaust a buffer.",
  ["src/include/armas.h"], [("armas_walloc, armas_wreserve*, armas_wsetpos, armas_wreset, armas_wrelease", "armas.h")],
  claim=VC, note="Unbounded proof over 64-bit machine sizes (no operation overflows); trusted: clang AST, /verif/vc, z3, calloc/malloc/free as described.")
p("C13", "Applying a pivot vector permutes rows or columns, and reverses exactly",
  "Applying a pivot vector interchanges, forward, row (or column, or row and column of a symmetric matrix of which one triangle is stored) k with the one pivot k names, for k from the first; backward, the last row with the one the last pivot names, and so on upwards. Row and column pivots that are zero or name no row are skipped. Nothing else changes, so no element is lost or duplicated; with as many pivots as rows backward undoes forward exactly. More pivots than rows are rejected. The pivots are not changed, and accessors and partitions of pivot vectors give exactly the named entries.",
  [INP], "all matrices, strides, pivot vectors (any length, repeated and invalid entries) and directions", "Tests apply pivots produced by one factorisation.",
  ["src/base/pivot.c", "src/include/pivot.h", "src/include/armas.h"], [("armas_pivot_rows, armas_pivot_cols, armas_pivot", "pivot.c"), ("pivot_2x1, pivot_repart_2x1to3x1, pivot_cont_3x1to2x1", "pivot.h")],
  claim=VC, note=UNB + " Pivots of symmetric matrices are row numbers (precondition); armas_pivot_init/new/release are not under contract.")
p("C14", "Sorting yields a sorted permutation of the input",
  "Sorting a vector, by insertion or quicksort, ascending or descending, by value or by magnitude, ends for every input, leaves it ordered in the requested direction and holding exactly the elements it held, each as often (with its sign). Sorting keys together with companion matrices applies one permutation to the keys, to the columns of the first companion, the rows of the second and the columns or elements of the third. Nothing outside the vectors and the permuted parts changes.",
  [INP], "all vectors (any length, stride, orientation, with duplicates), both directions, every set of companions", "Tests sort a few random vectors without duplicates; two genuine defects (an endless loop on duplicates, lost signs) were found and fixed.",
  ["src/lapack/sort.c", "src/lapack/qsort.c"], [("insertion sorts, selection with companions, quicksort and their minima", "armas_sort_vec, armas_abs_sort_vec, vec_minmax, armas_qsort_vec, armas_qsort_asc/desc, armas_sort_eigenvec")],
  claim=VC, note=UNB + " Quantified invariants are inferred from a family of formulas and proved inductive by z3. A direction of zero with companions is a precondition.")
p("C15", "Factorisations reproduce the matrix they factor",
  "LU factorisation without pivoting and Cholesky factorisation (either triangle) leave exactly the factors whose product is the given matrix, for every size and blocking, and touch neither the other triangle nor storage outside the matrix. The solvers that take the factors return the solution of the original system, plain or transposed, for every number of right sides; with the pivots of an LU factorisation, that of the system with its rows exchanged. A factorisation or a solution that cannot be completed for want of a work buffer is reported as an error.",
  [INP, CFG], "all sizes, block sizes, right sides and pivots; real arithmetic", "Tests check a norm for one random matrix per variant.",
  ["src/lapack/lu.c", "src/lapack/chol.c"], [("unblocked and blocked factorisation", "unblk_lufactor_nopiv, blk_lufactor_nopiv, unblk_cholfactor_lower/upper, blk_cholfactor_lower/upper"), ("solvers", "armas_lusolve, armas_cholsolve")],
  claim=VC, note=UNB + " Factorisations with pivoting are not under contract (the solver with pivots is). The factors are assumed to exist: no zero pivot without pivoting, a positive definite matrix for Cholesky.")
p("C16", "Elementary reflectors and rotations satisfy their defining equations",
  "A generated Householder reflector maps its vector onto a multiple of the first unit vector and is orthogonal; a generated Givens rotation zeroes its second component and preserves length. The norm the reflector is built from is the square root of the sum of squares. Applying rotations to vectors, rows or columns computes exactly the two-by-two product in each position. A sequence of rotations applied to neighbouring rows or columns, forwards or backwards, is the product of the single ones, stays inside the matrix, and tells how many were applied.",
  [INP], "all real vectors and scalars", "Tests use random inputs away from the special cases.",
  ["src/lapack/house.c", "src/lapack/givens.c", "src/lapack/rotate.c", "src/blas/nrm2.c"], [("armas_gvcompute, armas_house, armas_gvrotate", "givens.c, house.c")], claim=VC, note=UNB)
p("C17", "Sparse operations agree with their dense counterparts",
  "For every valid compressed or coordinate sparse matrix, converting between formats and to dense storage preserves every entry, and sparse matrix-vector products and triangular solves equal the dense results.",
  [INP], "all valid sparse structures", "No sparse tests are in the stable suite.",
  ["src/sparse/convert.c", "src/sparse/gemv.c", "src/sparse/dense.c"], [("format conversion and products", "src/sparse")], na=LATER)
p("C18", "Reading back written data restores it",
  "A matrix written in one of the supported text formats and read back has the same size and the same elements.",
  ["inputs", "histories"], "all matrices", "No such test is in the stable suite.",
  ["src/io/iomm.c", "src/io/json_base.c"], [("reader/writer pairs", "src/io")],
  na="round trips go through libc printf/strtod formatting of doubles, which has no contract within reach of a deductive verifier here; a claim would rest on assuming exactly what is to be shown")
p("C20", "Error-free transformations are exact",
  "The compensated summation and product primitives return a rounded result and an error term whose exact sum equals the exact result of the operation in IEEE arithmetic.",
  [INP], "all doubles without overflow", "Tests compare accuracy of sums.",
  ["src/include/eft.h"], [("twosum, twoprod, fastsum", "eft.h")],
  na="the library is compiled with -ffast-math, under which the compiler may cancel the error terms, and extended precision code is not part of the default build (CONFIG_EXT_PRECISION off): the shipped code makes no such guarantee to prove")
p("C21", "Eigenvalue and singular value decompositions converge to the decomposition",
  "Symmetric eigenvalue and singular value computations return orthogonal factors and ordered values whose product is the input matrix.",
  [INP], "all matrices", "Tests check norms for random matrices.",
  ["src/lapack/evd.c", "src/lapack/svd.c", "src/lapack/trdsec.c"], [("bidiagonal and tridiagonal iterations", "bdsvd*.c, trdevd.c")],
  na="the guarantee is about convergence of floating point iterations to working accuracy; neither termination nor the error bound is expressible as a contract over reals that a deductive verifier in this sandbox can discharge")
p("C22", "Task scheduling runs every submitted task exactly once",
  "Every task submitted to the worker pool is executed exactly once and the submitter resumes only after all of its tasks have finished, for every interleaving of the workers.",
  ["schedules"], "all thread interleavings", "Tests run a few schedules.",
  ["src/workers/scheduler.h", "src/workers/queue.h", "src/workers/counter.h"], [("queues, counters, semaphores", "src/workers")],
  na="a whole-history property of concurrent C code on pthreads and C atomics: no contract logic with permissions or schedules is available for C here, and sequential contracts cannot express it")
p("C23", "Iterative sparse solvers return a solution within the requested tolerance",
  "Conjugate gradient and GMRES solvers, with or without preconditioner, stop with a residual below the requested bound or report that the iteration limit was reached.",
  [INP], "all systems", "No such test is in the stable suite.",
  ["src/sparse/cgrad.c", "src/sparse/gmres.c"], [("iteration loops", "src/sparse")],
  na="depends on floating point convergence and on recursively updated residuals drifting from the true one; not a statement a real-arithmetic contract can decide")
