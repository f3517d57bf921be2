#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TEST = ("The tester runs a few hundred fixed shapes (nb=32, dimensions about 150 and 201x97, one option "
        "combination at a time, a normwise residual) ")

prop("C01", "Level-3 BLAS operations compute their defining matrix expression",
 "The general, symmetric, Hermitian, banded and triangular matrix multiplications, the rank-k and rank-2k updates and the triangular solves return in the output matrix, entry by entry and within rounding error, the value of their defining expression for the given scalars and options. "
 "Only the triangle or band that the options name is read from structured operands, and a zero beta overwrites the output whatever it held before.",
 ["inputs","configurations"], "every precision, side/uplo/trans/diag combination, shape (including empty and non-multiples of the tile size), leading dimension, scalar (0, 1, general), tile size and number of threads",
 TEST+"and compares norms, so a wrong single entry, a tile-boundary case or an option combination that the list omits passes.",
 ["compute/zgemm.c","compute/pzgemm.c","compute/pzhemm.c","compute/pzsymm.c","compute/pzsyrk.c","compute/pzherk.c","compute/pzsyr2k.c","compute/pzher2k.c","compute/pztrmm.c","compute/pztrsm.c","compute/zgbmm.c","core_blas/core_zgemm.c"],
 [("tile loops choose operand tiles, transposition and the beta applied at the first inner step","compute/pzgemm.c plasma_pzgemm"),("diagonal/off-diagonal tile cases","compute/pzsyrk.c, pztrsm.c, pztrmm.c")],
 ["output matrix after plasma_zgemm, plasma_zsymm, plasma_zhemm, plasma_zsyrk, plasma_zherk, plasma_zsyr2k, plasma_zher2k, plasma_ztrmm, plasma_ztrsm, plasma_zgbmm"])

prop("C02", "Matrix add, copy, set, scale, convert and row/column swap are exact",
 "Adding, copying (with any triangle and transposition the routine documents), setting, scaling, converting between single and double precision, and interchanging rows or columns of a matrix produce exactly the entries their definition prescribes for every selected entry. "
 "Scaling by a ratio does not overflow or underflow in an intermediate when the final value is representable.",
 ["inputs","configurations"], "every precision, triangle, transposition, shape, leading dimension, scalar pair, pivot sequence and increment, and tile size",
 TEST+"and compares against a reference in norm for a handful of shapes, mostly square; extremes of the scale ratio and rectangular triangles are never run.",
 ["compute/pzgeadd.c","compute/pztradd.c","compute/pzlacpy.c","compute/pzlaset.c","compute/pzlascl.c","compute/pzgeswp.c","compute/pzlag2c.c","compute/pclag2z.c","core_blas/core_zgeadd.c","core_blas/core_ztradd.c","core_blas/core_zlacpy.c","core_blas/core_zlaset.c","core_blas/core_zlascl.c","core_blas/core_zgeswp.c","core_blas/core_zlag2c.c"],
 [("per-tile triangle selection","compute/pzlacpy.c, pzlaset.c, pzlascl.c, pztradd.c"),("row/column interchange across tiles","core_blas/core_zgeswp.c")],
 ["output matrix after plasma_zgeadd, ztradd, zlacpy, zlaset, zlascl, zgeswp, zlag2c, clag2z"])

prop("C03", "Matrix norms and column/row maxima have their mathematical value",
 "The max, one, infinity and Frobenius norms of general, symmetric, Hermitian, triangular, trapezoidal and band matrices, and the largest absolute value of every row or column, equal the mathematical value of the entries that the options select, within rounding. "
 "The Frobenius norm neither overflows nor underflows when the result is representable, and no entry outside the selected triangle or band influences the value.",
 ["inputs","configurations"], "every norm, triangle, diagonal kind, shape, bandwidth, leading dimension, magnitude of the entries and tile size",
 TEST+"with uniformly distributed entries, for which a tile that is left out of a reduction rarely changes a maximum, and never with huge or tiny entries.",
 ["compute/pzlange.c","compute/pzlansy.c","compute/pzlanhe.c","compute/pzlantr.c","compute/pzlangb.c","compute/pdzamax.c","core_blas/core_zlange.c","core_blas/core_zlantr.c","core_blas/core_zsyssq.c","core_blas/core_ztrssq.c"],
 [("two-stage reduction: per-tile partial norms in a workspace, then one reducing task","compute/pzlange.c")],
 ["value returned by plasma_zlange, zlansy, zlanhe, zlantr, zlangb, dzamax"])

prop("C04", "Dense LU: factorization, pivots and solves are correct",
 "Factoring a general matrix yields a unit lower factor whose multipliers do not exceed one in the magnitude used for pivoting (|re|+|im| for complex matrices), an upper factor and row interchanges whose product is the original matrix within backward error, for tall, wide and square matrices. "
 "Solving with those factors, or factoring and solving in one call, gives the backward-stable solution of the system, or of the transposed or conjugate-transposed system, that the caller asked for.",
 ["inputs","schedules","configurations"], "every shape, number of right-hand sides, transposition, tile size, inner block size, number of panel threads and task schedule",
 TEST+"and runs LU with a single thread and a single panel thread only, so neither the cooperating panel threads nor the schedules of the task graph are exercised.",
 ["compute/zgetrf.c","compute/pzgetrf.c","core_blas/core_zgetrf.c","compute/zgetrs.c","compute/zgesv.c","core_blas/core_zgeswp.c"],
 [("panel factorization shared by several threads with a barrier","core_blas/core_zgetrf.c core_zgetrf"),("column-by-column update tasks with declared dependences","compute/pzgetrf.c")],
 ["factors, pivots and solution after plasma_zgetrf, zgetrs, zgesv"])

prop("C05", "Band LU: factorization, pivots and solves are correct",
 "Factoring a general band matrix in band storage yields factors, with fill confined to the documented extra superdiagonals, and pivots that reproduce the matrix within backward error; solving with them, or factoring and solving in one call, gives the backward-stable solution of the system.",
 ["inputs","schedules","configurations"], "every size, pair of bandwidths (including zero and up to the size minus one), number of right-hand sides, tile size, panel thread count and schedule, for a band array with the rows that the tile storage needs, entry (i,j) at row kl+ku+i-j, and zeros outside the band",
 TEST+"with two bandwidth pairs, one thread and no wide or zero bandwidths.",
 ["compute/zgbtrf.c","compute/pzgbtrf.c","compute/zgbtrs.c","compute/zgbsv.c","compute/pztbsm.c","compute/zgbset.c","compute/pzgb2desc.c"],
 [("band tile layout with fill-in rows","control/descriptor.c plasma_desc_general_band_init"),("panel and update tasks","compute/pzgbtrf.c")],
 ["factors, pivots and solution after plasma_zgbtrf, zgbtrs, zgbsv"])

prop("C06", "Dense Cholesky: factorization and solves are correct",
 "For a Hermitian positive definite matrix given by its upper or lower triangle, the factorization returns a triangular factor with positive real diagonal whose product with its conjugate transpose is the matrix within backward error, and the solves return the backward-stable solution.",
 ["inputs","schedules","configurations"], "every size, triangle, number of right-hand sides, tile size, thread count and schedule",
 TEST+"with well-conditioned diagonally dominant matrices, where many errors in small entries vanish in the norm.",
 ["compute/zpotrf.c","compute/pzpotrf.c","compute/zpotrs.c","compute/zposv.c"],
 [("right/left-looking tile algorithm","compute/pzpotrf.c plasma_pzpotrf")],
 ["factor and solution after plasma_zpotrf, zpotrs, zposv"])

prop("C07", "Band Cholesky: factorization and solves are correct",
 "For a Hermitian positive definite band matrix in band storage, upper or lower, the factorization returns a band triangular factor that reproduces the matrix within backward error, and the solves return the backward-stable solution.",
 ["inputs","schedules","configurations"], "every size, bandwidth (including zero and size minus one), triangle, number of right-hand sides, tile size, thread count and schedule",
 TEST+"with one or two bandwidths.",
 ["compute/zpbtrf.c","compute/pzpbtrf.c","compute/zpbtrs.c","compute/zpbsv.c","compute/pzpb2desc.c","compute/pzdesc2pb.c","compute/pztbsm.c"],
 [("loops bounded by the band","compute/pzpbtrf.c")],
 ["factor and solution after plasma_zpbtrf, zpbtrs, zpbsv"])

prop("C08", "QR and LQ factorizations and the use of their orthogonal factor are correct",
 "The QR and LQ factorizations give a triangular or trapezoidal factor and an implicit orthogonal (unitary) factor whose product is the original matrix within backward error, with either the flat or the tree reduction. "
 "Generating the orthogonal factor explicitly yields orthonormal columns (rows) to machine precision, and applying it from either side, transposed or not, agrees with multiplying by it.",
 ["inputs","schedules","configurations"], "every shape (tall, wide, square, one row, one column), number of reflectors, side, transposition, tile size, inner block size (not dividing the tile size too), reduction mode, thread count and schedule",
 TEST+"with one inner block size, so that partial inner blocks, trees of unusual height and rectangular edge tiles are hardly reached.",
 ["compute/zgeqrf.c","compute/pzgeqrf.c","compute/pzgeqrf_tree.c","compute/zgelqf.c","compute/pzgelqf.c","compute/pzgelqf_tree.c","compute/pzungqr.c","compute/pzungqr_tree.c","compute/pzunglq.c","compute/pzunglq_tree.c","compute/pzunmqr.c","compute/pzunmqr_tree.c","compute/pzunmlq.c","compute/pzunmlq_tree.c","core_blas/core_zgeqrt.c","core_blas/core_ztsqrt.c","core_blas/core_zttqrt.c","core_blas/core_ztsmqr.c","core_blas/core_zttmqr.c","core_blas/core_zparfb.c","core_blas/core_zpamm.c"],
 [("tile Householder kernels with inner blocking","core_blas/core_zgeqrt.c, core_ztsqrt.c, core_zttqrt.c, core_zparfb.c"),("reduction order","control/tree.c plasma_tree_operations")],
 ["factors, generated and applied orthogonal matrices after plasma_zgeqrf, zgelqf, zungqr, zunglq, zunmqr, zunmlq"])

prop("C09", "Least-squares and minimum-norm solutions are optimal",
 "For a full-rank overdetermined system the returned solution minimizes the residual (the residual is orthogonal to the range of the matrix), and for a full-rank underdetermined system it is the solution of least norm, whether the solver is called in one step or after a separate factorization.",
 ["inputs","configurations"], "every shape, number of right-hand sides, tile size, inner block size, reduction mode and thread count",
 TEST+"for two shapes and checks only a normwise residual.",
 ["compute/zgels.c","compute/zgeqrs.c","compute/zgelqs.c"],
 [("factor, apply, triangular solve, with zeroing of the trailing rows for the minimum-norm case","compute/zgels.c plasma_omp_zgels")],
 ["solution after plasma_zgels, zgeqrs, zgelqs"])

prop("C10", "Matrix inverses and triangular products are correct",
 "The inverse computed from LU factors, from a Cholesky factor, directly from a general or positive definite matrix, or of a triangular matrix (unit or not) is the inverse of that matrix within the stability bound of the method, and the product of a triangular factor with its conjugate transpose is formed correctly.",
 ["inputs","schedules","configurations"], "every size, triangle, diagonal kind, tile size, thread count and schedule",
 TEST+"in norm.",
 ["compute/zgetri.c","compute/pzgetri_aux.c","compute/zgetri_aux.c","compute/zgeinv.c","compute/zpotri.c","compute/zpoinv.c","compute/ztrtri.c","compute/pztrtri.c","compute/zlauum.c","compute/pzlauum.c","compute/pzgeswp.c"],
 [("triangular inversion followed by the auxiliary solve and column interchange","compute/zgetri.c, pzgetri_aux.c")],
 ["matrix after plasma_zgetri, zgetri_aux, zgeinv, zpotri, zpoinv, ztrtri, zlauum"])

prop("C11", "Hermitian indefinite factorization and solves are correct",
 "For a Hermitian (symmetric) indefinite matrix given by its lower triangle, the factorization with symmetric pivoting and the solve return the backward-stable solution of the system, including for matrices that need pivoting and that no Cholesky factorization could handle.",
 ["inputs","schedules","configurations"], "every size, number of right-hand sides, tile size, inner block size, panel thread count and schedule",
 TEST+"on a random matrix for two sizes.",
 ["compute/zhetrf.c","compute/pzhetrf_aasen.c","compute/zhetrs.c","compute/zhesv.c","core_blas/core_zheswp.c","core_blas/core_zgessq.c"],
 [("two-stage Aasen factorization with band LU of the band factor","compute/pzhetrf_aasen.c")],
 ["solution and factors after plasma_zhetrf, zhetrs, zhesv"])

prop("C12", "Singular value decomposition is correct",
 "The singular values returned are those of the matrix, non-negative and in decreasing order, and the singular vectors, when requested, are orthonormal and together with the values reproduce the matrix within backward error.",
 ["inputs","schedules","configurations"], "every shape at least as large as the tile size, job option, tile size, inner block size, thread count and schedule",
 TEST+"for two shapes.",
 ["compute/zgesdd.c","compute/pzge2gb.c","compute/pzgbbrd_static.c","compute/pzlarft_blgtrd.c","compute/pzunmqr_blgtrd.c","compute/pzgecpy_tile2lapack_band.c","core_blas/core_zgbtype1cb.c","core_blas/core_zgbtype2cb.c","core_blas/core_zgbtype3cb.c"],
 [("reduction to band","compute/pzge2gb.c"),("bulge chasing with a static schedule and a progress table","compute/pzgbbrd_static.c"),("back-transformation","compute/pzunmqr_blgtrd.c")],
 ["values and vectors after plasma_zgesdd"])

prop("C13", "Selected eigenvalues and eigenvectors of a tridiagonal matrix are correct",
 "For a real symmetric tridiagonal matrix, the routine returns exactly the eigenvalues in the half-open value range, or with the indices, that the caller selects, with their multiplicities and to working accuracy, and, when asked, unit eigenvectors with small residual for eigenvalues which are separated by more than rounding.",
 ["inputs","configurations"], "every size, diagonal and off-diagonal (including zero off-diagonals and repeated eigenvalues), range kind and bounds, job, and thread count",
 "The tester runs it on a few matrices with known eigenvalues in one job per line.",
 ["compute/zstevx2.c","compute/zlaebz2.c","compute/zlaneg2.c"],
 [("bisection on Sturm counts over a shared stack of intervals","compute/zlaebz2.c")],
 ["eigenvalues, multiplicities and vectors after plasma_dstevx2 and plasma_sstevx2"])

prop("C14", "Mixed-precision solvers deliver full-precision solutions or fall back",
 "The mixed-precision general, positive definite and band solvers return a solution that satisfies the same backward-error criterion as the full-precision solver whatever the conditioning or scaling of the system, falling back to the full-precision factorization when refinement does not converge or the single-precision factorization fails, and the iteration count they report tells which path was taken.",
 ["inputs","configurations"], "every size, triangle, conditioning, magnitude of the entries (including those not representable in single precision), number of right-hand sides and tile size",
 TEST+"with well-conditioned systems, so refinement always converges and the fallback is never taken.",
 ["compute/zcgesv.c","compute/zcposv.c","compute/zcgbsv.c","compute/pzlag2c.c","compute/pclag2z.c"],
 [("refinement loop, stopping test and fallback","compute/zcgesv.c, zcposv.c, zcgbsv.c")],
 ["solution and iteration count after plasma_zcgesv, zcposv, zcgbsv (and ds forms)"])

prop("C15", "Tile layout conversions are lossless and descriptors address their storage",
 "Converting a matrix from column-major or band storage to tile layout and back reproduces it bit for bit and touches nothing outside the matrix, for general, triangular, band and symmetric-band layouts. "
 "Every descriptor, and every view of a descriptor, maps each entry of its matrix to a distinct location inside its allocation, with tile dimensions that add up to the matrix dimensions.",
 ["inputs","configurations"], "every shape, bandwidth, tile size, leading dimension and (offset, size) of a view",
 "No test checks the conversions or descriptors directly; they are only used with the shapes of the other tests.",
 ["control/descriptor.c","include/plasma_descriptor.h","compute/pzge2desc.c","compute/pzdesc2ge.c","compute/pzpb2desc.c","compute/pzdesc2pb.c","compute/pztr2desc.c","compute/pzdesc2tr.c","compute/pzgb2desc.c"],
 [("four-region tile storage and address computation","include/plasma_descriptor.h plasma_tile_addr_general"),("descriptor creation and views","control/descriptor.c")],
 ["memory after plasma_omp_zge2desc/zdesc2ge/ztr2desc/zdesc2tr/zpb2desc/zdesc2pb/zgb2desc; addresses returned for every tile"])

prop("C16", "Only documented outputs are written and unreferenced input is ignored",
 "A call writes only the entries its documentation lists as output: pure inputs, the opposite triangle, entries outside the band and the padding between the matrix height and the leading dimension keep their bits. "
 "Whatever the unreferenced entries hold (not-a-numbers included) has no influence on the result.",
 ["inputs","configurations"], "every routine, precision, option combination, shape, leading dimension and content of the unreferenced memory",
 "The tests never look at the padding or the opposite triangle and fill everything with ordinary numbers.",
 ["compute/pzdesc2ge.c","compute/pzdesc2tr.c","compute/pzdesc2pb.c","compute/zpotrf.c","compute/zherk.c"],
 [("copy-out after the computation restricted to tiles of the triangle or band","compute/pzdesc2tr.c, pzdesc2pb.c")],
 ["all caller-visible memory around each call"])

prop("C17", "Invalid arguments are reported by position and change nothing",
 "Every routine called with an argument (option, dimension or leading dimension) outside its documented domain returns the negated position of the first offending argument, writes none of its matrices, vectors or pivots, and leaves the library usable; the asynchronous forms, called with an illegal option or descriptor, mark the sequence and request as failed with the illegal-value error instead and change nothing. (A bandwidth beyond the dimension or an unusable descriptor of reflector blocks is refused with the illegal-value error, a leading dimension too small for the tiles of a band after the other checks.)",
 ["inputs","programs"], "every routine and precision, every argument position, every kind of invalid value, alone and together with other invalid arguments",
 "No existing test passes an invalid argument.",
 ["compute/zgemm.c","compute/zgesv.c","compute/zgels.c","control/async.c","control/descriptor.c"],
 [("argument tests at the head of each routine","compute/*.c"),("request failure","control/async.c plasma_request_fail"),("descriptor checks","control/descriptor.c plasma_desc_check")],
 ["return value, status fields and argument memory"])

prop("C18", "Empty and degenerate problems return success with the defined result",
 "When a dimension is zero or the scalars make the operation trivial, the routine returns success and leaves the result that the definition demands: nothing is written when there is nothing to do, the output is scaled when only the product term is empty, and norms of empty matrices are zero.",
 ["inputs"], "every routine, precision, and combination of zero dimensions, zero or one scalars and zero bandwidths",
 "The tests run no empty problem.",
 ["compute/zgemm.c","compute/zsyrk.c","compute/zlange.c","compute/zgels.c","compute/zpotrf.c"],
 [("quick return tests","compute/*.c")],
 ["return value and argument memory"])

prop("C19", "Numerical breakdown is reported with the right position",
 "A factorization that meets a non-positive-definite leading block or an exactly zero pivot returns the positive one-based position of the first failing diagonal, a triangular inversion of a singular matrix the position of a zero on the diagonal, and combined solvers return the same value as the factorization; a call on a matrix that does not break down returns zero.",
 ["inputs","schedules","configurations"], "every position of the breakdown, size, triangle, tile size, panel thread count and schedule",
 "The tests have a zero-column option, run for LU only, at one position, and it is among the tests that fail.",
 ["compute/pzpotrf.c","compute/pzgetrf.c","core_blas/core_zgetrf.c","compute/pztrtri.c","compute/pzpbtrf.c","compute/pzgbtrf.c","control/async.c"],
 [("status = offset of the tile + status of the kernel, stored in the sequence","compute/pzpotrf.c, control/async.c")],
 ["return value of plasma_zpotrf, zposv, zpbtrf, zpbsv, zgetrf, zgesv, zgbtrf, zgbsv, ztrtri, zpotri, zpoinv, zgetri, zgeinv"])

prop("C20", "Asynchronous calls in one sequence behave like the same calls in order",
 "Asynchronous calls issued one after another in one parallel region on overlapping matrices (tile-aligned views of one tile grid) leave the same result as performing them one at a time, in every schedule. "
 "Once a call in a sequence has failed, the sequence keeps the first failure's status and calls issued to that sequence after the failure was recorded do not modify their operands, and the tasks of earlier calls that start after it do not modify the tile matrices of the sequence, while other sequences are unaffected.",
 ["programs","schedules","histories"], "every sequence of asynchronous operations on shared tile matrices, thread count and schedule, with and without a failing operation",
 "The tests issue one operation per parallel region and never chain calls or fail in the middle.",
 ["control/async.c","compute/pzgemm.c","compute/pzgetrf.c","compute/pzpotrf.c","compute/zposv.c","compute/zgesv.c"],
 [("task dependences on tile addresses order operations across calls","core_blas/core_z*.c core_omp_*"),("sequence status consulted at entry and in each task","control/async.c, core_blas/core_z*.c")],
 ["matrices, sequence and request status at the end of the region"])

prop("C21", "Concurrent tasks never make conflicting unordered memory accesses",
 "No two tasks that may run at the same time access the same memory location with at least one of them writing: the ordering constraints declared for the tasks cover all data they touch, including workspaces, pivots and status, and the layout conversions before and after the computation.",
 ["schedules","inputs","configurations"], "every routine, option combination, shape, tile size, panel thread count, thread count and schedule",
 "A missing constraint needs a rare interleaving to change a result, and the tests run each case once under the default scheduler, LU with a single thread.",
 ["compute/pzgetrf.c","compute/pzgbtrf.c","compute/pzhetrf_aasen.c","compute/pzgeqrf.c","compute/pzlange.c","compute/pzgeswp.c","core_blas/core_zgemm.c","core_blas/core_ztsmqr.c"],
 [("depend clauses on tiles","core_blas/core_z*.c core_omp_*, compute/pz*.c"),("per-thread workspaces","control/workspace.c")],
 ["memory accesses and synchronization of every task"])

prop("C22", "Results do not depend on schedule or thread count",
 "With fixed inputs and tuning parameters, the results of a successful call are bit-for-bit the same for every interleaving of its tasks and every number of threads, for every routine whose task decomposition does not itself depend on the thread count (the panel of an LU factorization is split among at most half of the threads, so that the comparison is among thread counts which allow the requested panel threads).",
 ["schedules","configurations"], "every routine, thread count from one up, and topological order of the tasks",
 "The tests never compare two runs.",
 ["compute/pzgemm.c","compute/pzpotrf.c","compute/pzgetrf.c","compute/pzgeqrf.c","core_blas/core_zgetrf.c"],
 [("accumulations into one tile are serialized by inout dependences in program order","core_blas/core_z*.c")],
 ["output bits of repeated runs"])

prop("C23", "Every call completes",
 "Every call on valid arguments returns after finitely many steps under every fair schedule, with no deadlock and no endless wait, for all thread counts, including the cooperating panel threads and their barrier (one call, or one sequence of calls, at a time), the statically scheduled stage of the singular value decomposition, and calls in which a task fails part-way.",
 ["schedules","configurations","inputs"], "every routine, team size from one up, requested panel thread count and fair schedule",
 "The tests use four threads, or one for LU, so a wait that needs more threads than there are, or a lost wake-up, never appears.",
 ["control/barrier.c","core_blas/core_zgetrf.c","compute/pzgetrf.c","compute/pzgbtrf.c","compute/pzhetrf_aasen.c","compute/pzgbbrd_static.c","compute/zlaebz2.c"],
 [("sense-counting spin barrier","control/barrier.c plasma_barrier_wait"),("progress table","compute/pzgbbrd_static.c")],
 ["return from each call; state of every task and waiting loop"])

prop("C24", "All memory accesses are in bounds and free of undefined behaviour",
 "No call on valid arguments reads or writes outside the caller's arrays and the library's live allocations, passes an invalid dimension to the underlying kernels, or performs an operation that the language leaves undefined.",
 ["inputs","configurations","schedules"], "every routine, precision, option combination, shape and tuning configuration",
 "The tests run without any checker; several of them crash or corrupt memory on the base tree and are excluded as unstable.",
 ["control/descriptor.c","include/plasma_descriptor.h","compute/pzlacpy.c","core_blas/core_zparfb.c","core_blas/core_ztsqrt.c","control/workspace.c"],
 [("index and size arithmetic for tiles, edge tiles and workspaces","include/plasma_descriptor.h, control/workspace.c")],
 ["every load and store of the library, and the ranges handed to BLAS and LAPACK kernels"])

prop("C25", "Every call releases what it allocated",
 "When a call returns, with success or with any failure, all memory it allocated has been released exactly once, except objects that its documentation hands to the caller, and finalizing the library releases everything that initializing it acquired.",
 ["histories","inputs"], "every routine, outcome (success, argument error, numerical failure) and number of repetitions",
 "The tests do not measure memory.",
 ["compute/zgemm.c","compute/zgels.c","compute/pzgetrf.c","control/workspace.c","control/context.c","control/tree.c","control/tuning.c"],
 [("paired create/destroy in each routine","compute/*.c"),("context attach/detach","control/context.c")],
 ["allocation and release events of the library"])

prop("C26", "Allocation failure is reported and survived",
 "If an allocation fails at any point during a call, the call returns the out-of-memory error (or marks its sequence with it), does not crash, hang or leak, and the library remains usable for the next call.",
 ["fault_sequences","inputs"], "every routine and every single allocation made by it as the one that fails",
 "The tests never make an allocation fail.",
 ["control/descriptor.c","control/workspace.c","control/tree.c","control/context.c","compute/zgemm.c","compute/pzgetrf.c","compute/zgesdd.c"],
 [("return-code tests after descriptor and workspace creation","compute/*.c"),("error status in the sequence","control/async.c")],
 ["return value, crash, live allocations, next call"])

prop("C27", "Results never depend on uninitialized memory",
 "The result of a call is a function of its documented inputs only: it does not depend on what the memory obtained for tiles, workspaces or local variables contained before.",
 ["inputs","configurations"], "every routine, option combination, shape and initial content of allocated and stack memory",
 "In the tests fresh memory is usually zero, which hides a missing initialization.",
 ["control/descriptor.c","control/workspace.c","compute/pzgeqrf.c","core_blas/core_ztsqrt.c","compute/zgels.c","compute/pzgbtrf.c"],
 [("explicit initialization of tile workspaces and partial tiles","compute/zgeqrf.c, pzgb2desc.c, core_blas/core_zlaset.c")],
 ["output bits under different initial contents"])

prop("C28", "Tuning and configuration change speed, not meaning",
 "Setting a parameter and reading it back gives the value set, invalid settings are refused without effect, and defaults are restored by re-initialization. Whatever valid combination of tile size, inner block size, panel threads, reduction mode and tuning switch is in force, every routine returns an equally valid result, and tuning, when enabled, takes its values from the tuning script.",
 ["configurations","histories"], "every sequence of settings and every valid combination of them, for every routine",
 "The tests use one configuration per routine and never read a setting back.",
 ["control/context.c","control/tuning.c","compute/zgemm.c"],
 [("per-context parameters","control/context.c plasma_set, plasma_get"),("Lua tuning hooks","control/tuning.c")],
 ["values from plasma_get; outputs under different settings"])

prop("C29", "Calls are independent of the calls made before",
 "The result of a call depends only on its arguments and the current settings, not on which calls, successful or failed, were made earlier or whether the library was finalized and initialized again; using the library before initialization or after finalization is reported.",
 ["histories","programs"], "every sequence of calls, failures, re-initializations and setting changes",
 "Each test process makes one call.",
 ["control/context.c","control/tuning.c","control/async.c","compute/pzgbbrd_static.c"],
 [("context kept per thread","control/context.c plasma_context_self"),("fresh sequence and request per call","compute/*.c")],
 ["output bits of a call after different histories"])

prop("C30", "Reduction trees annihilate every tile exactly once in a valid order",
 "For every tile grid and number of cores, the generated list of reduction operations turns each subdiagonal tile of each panel to zero exactly once, uses as pivot only a row that still carries a live triangle, leaves the diagonal row last, and contains nothing else.",
 ["inputs","configurations"], "every number of tile rows and columns, number of cores and tree kind",
 "The tests reach a handful of grids through QR factorizations.",
 ["control/tree.c","include/plasma_tree.h"],
 [("per-column state of the annihilated rows","control/tree.c plasma_tree_greedy, plasma_tree_auto")],
 ["the operation list returned by the tree generator"])

prop("C31", "Fortran interface and GPU back ends give the same results",
 "The Fortran interface maps every routine, constant and descriptor one to one to the C interface, so the same call made from Fortran gives the same result.",
 ["programs","inputs"], "every routine reachable from Fortran",
 "The Fortran modules are generated and built only on request; this build has none.",
 ["tools/fortran_gen.py","include/plasma_types.h"],
 [("generated interface modules","tools/fortran_gen.py")],
 ["results of Fortran programs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
