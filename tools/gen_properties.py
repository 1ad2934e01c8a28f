#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

p("P01", "Thread partitions cover the index range exactly once, in order",
  "Inside a parallel region of T threads, getSimpleThreadPartition and getLoadBalancedPartition give thread t an interval [begin,end) such that thread 0 starts at 0, each thread starts where the previous one ends, and the last ends at n, for every n >= 0 and every non-decreasing prefix sum (whatever its first element is). "
  "Simple intervals never exceed ceil(n/T) items; a load-balanced interval's work never exceeds ceil(W/T) plus the work of its single heaviest item.",
  ["inputs", "configurations"], "all n, all monotone prefix sums, all thread counts",
  "The drivers only partition matrices of a few fixed sizes with 1-4 threads; uneven remainders, empty threads, zero-work rows and shifted prefix sums are never separated out.",
  ["Utils.cpp"], [("getSimpleThreadPartition", "Utils.cpp"), ("getLoadBalancedPartition", "Utils.cpp")])
p("P02", "Parallel bulk fill and copy touch exactly the requested bytes",
  "parMemset(ptr,c,n) sets exactly bytes [0,n) to c, parMemcpy(dst,src,n) makes exactly dst[0,n) equal src[0,n), and copyVector copies exactly len elements, for every n (including n < 64, n not a multiple of 64, and n beyond 2^31) and every thread count, called inside or outside a parallel region; no byte outside is written.",
  ["inputs", "configurations"], "all byte counts (up to 2^40) and thread counts",
  "No driver checks these helpers directly, and sizes that do not divide evenly or exceed 2 GB are never used.",
  ["Utils.cpp", "Utils.hpp"], [("parMemset", "Utils.cpp"), ("parMemcpy", "Utils.cpp"), ("copyVector", "Utils.hpp")])
p("P03", "Parallel prefix sums are exclusive sums and return the total",
  "When every thread of a team calls prefixSum (or prefixSumMultiple with n lanes), thread t receives, per lane, the sum of the inputs of threads 0..t-1, and sum holds the sum over all threads, for every input value and thread count; the call is race-free, so the values do not depend on scheduling and the shared workspace may be reused by a following call after a barrier.",
  ["inputs", "schedules", "configurations"], "all input values, lanes, thread counts and schedules",
  "Only reached indirectly with 1-4 threads; a missing barrier usually still gives the right sums.",
  ["PrefixSum.cpp"], [("prefixSum", "PrefixSum.cpp"), ("prefixSumMultiple", "PrefixSum.cpp")])
p("P04", "Permutation helpers and vector reordering are exact",
  "getInversePerm inverts every permutation; isPerm returns true exactly for permutations of 0..n-1 and isInversePerm exactly for inverse pairs of permutations. "
  "reorderVector* / getReorderVector* place element i at perm[i] (or take element inversePerm[i] for the WithInversePerm variants), a NULL perm meaning identity, and reordering by perm and then by its inverse restores the vector bit for bit.",
  ["inputs", "configurations"], "all permutations and non-permutation int arrays, all vectors, all thread counts",
  "Drivers only pass permutations produced by the library itself; arrays that are not permutations never reach the predicates.",
  ["Utils.cpp", "Utils.hpp"], [("isPerm/isInversePerm", "Utils.cpp"), ("getInversePerm", "Utils.cpp"), ("reorderVector*", "Utils.cpp")])
p("P05", "COO to CSR conversion keeps every entry, sorted per row",
  "dcoo2csr turns any list of one-based (row, column, value) entries, in any order, into a CSR with the requested base whose rowptr starts at the base and is monotone, whose rows hold exactly the same multiset of (column, value) pairs as the list, with columns non-decreasing in each row when sorting is on. "
  "The CSR object overload also sets m, n, diagptr to the diagonal entry of each row that has one, and, when asked, diag and idiag to the diagonal value and its reciprocal.",
  ["inputs"], "all entry lists (duplicates, empty rows, any order), both bases",
  "Drivers convert five fixed matrices in file order; duplicates, empty rows and adversarial orders are not exercised.",
  ["COO.cpp", "COO.hpp"], [("dcoo2csr", "COO.cpp"), ("qsort (pairwise column/value sort)", "COO.cpp"), ("computeInverseDiag", "CSR.cpp")])
p("P06", "Matrix Market coordinate files load faithfully",
  "Loading a well-formed coordinate file (real, integer or pattern; general or symmetric; one-based) through loadMatrixMarket or the CSR(file) constructor yields exactly the matrix in the file: each entry once with its value (1 for pattern), symmetric files or forceSymmetric loads expanded with the mirror of every off-diagonal entry that has none yet added exactly once, dimensions rounded up to the pad multiple with unit diagonal entries from the smaller original up to the smaller padded dimension, and isSymmetric set accordingly. "
  "loadMatrixMarketTransposed yields the transpose.",
  ["inputs", "configurations"], "all well-formed small files, pads, bases and force-symmetric settings",
  "Tests load five fixed files, none with a pad, transposed loading or unusual entry orders.",
  ["COO.cpp", "CSR.cpp", "mm_io.cpp"], [("loadMatrixMarket_", "COO.cpp"), ("mm_read_banner/mm_read_mtx_crd_size", "mm_io.cpp"), ("CSR::CSR(file)", "CSR.cpp")])
p("P07", "Malformed Matrix Market input never corrupts memory",
  "For a coordinate file whose banner is not a supported Matrix Market banner, or whose entry count disagrees with the header (too few or too many entries), or which has an index outside the declared dimensions (too large or negative), or a negative size, loadMatrixMarket either reports failure by returning false or returns a COO whose every index lies inside its dimensions (the CSR(file) constructor ends the program instead of returning false); in no case does it read or write outside the memory it owns or loop forever.",
  ["inputs", "fault_sequences"], "all small files, including arbitrary integers in every header and entry field and truncation at every token",
  "The tests only load valid files.",
  ["COO.cpp", "mm_io.cpp"], [("loadMatrixMarket_ checks", "COO.cpp"), ("mm_read_banner, mm_read_mtx_crd_size", "mm_io.cpp")])
p("P08", "Matrix Market store then load returns the same matrix",
  "CSR::storeMatrixMarket and COO::storeMatrixMarket write a one-based general real coordinate file that loadMatrixMarket (and CSR(file)) read back to a matrix with the same m, n, entry positions and values, for both base 0 and base 1 matrices and every finite double bit for bit (a matrix without values is written as a pattern, whose entries are read as 1); storing leaves the matrix unchanged and replaces an existing file.",
  ["inputs", "configurations"], "all small matrices, both bases, all finite doubles",
  "mtx2bin only converts fixed inputs; no test stores text and loads it again.",
  ["CSR.cpp", "COO.cpp", "mm_io.cpp"], [("CSR::storeMatrixMarket", "CSR.cpp"), ("mm_write_mtx_crd", "mm_io.cpp"), ("loadMatrixMarket", "COO.cpp")])
p("P09", "PETSc binary store then load returns the same matrix",
  "CSR::storeBin followed by CSR::loadBin(file, base) reproduces m, n, rowptr, colidx and values bit for bit in the requested base, whatever the base of the stored matrix was, and storeBin leaves the stored matrix as it was; the file is the PETSc layout in native byte order (class id 1211216, m, n, nnz, row lengths, zero-based columns as ints, then the values as doubles; entries of a matrix without values are stored as 1). "
  "After loadBin, diagptr of every row that has a diagonal entry points at it.",
  ["inputs", "configurations"], "all small matrices with arbitrary 64-bit value patterns, both bases on both sides",
  "mtx2bin round-trips fixed files of base 0 only.",
  ["CSR.cpp"], [("CSR::storeBin", "CSR.cpp"), ("CSR::loadBin", "CSR.cpp")])
p("P10", "Switching index base is reversible and changes nothing else",
  "make1BasedIndexing and make0BasedIndexing shift every rowptr, colidx, diagptr and extptr entry (of the arrays present) by exactly one, are no-ops on a matrix already in that base, and are mutually inverse; afterwards getBase reports the base, getNnz is unchanged and values, diag and idiag are untouched.",
  ["inputs", "configurations"], "all small matrices, both bases, all thread counts",
  "Drivers use base 0 nearly everywhere and never convert back and forth.",
  ["CSR.cpp", "CSR.hpp"], [("make0BasedIndexing/make1BasedIndexing", "CSR.cpp"), ("getBase/getNnz", "CSR.hpp")])
p("P11", "transpose returns exactly the transposed matrix",
  "For every m x n CSR, in base 0 or 1, with or without values, transpose() returns an n x m matrix in the same base holding exactly the entries (j,i,v) for every (i,j,v) of the input (duplicates included), with column indices non-decreasing in each row, and diagptr (when the input has one) pointing at each diagonal entry present; the input is unchanged and the result does not depend on the number of threads or their schedule.",
  ["inputs", "schedules", "configurations"], "all small matrices, bases, thread counts",
  "Tests only use transpose on symmetric or a few fixed matrices with base 0.",
  ["CSR.cpp"], [("CSR::transpose (parallel counting sort)", "CSR.cpp")])
p("P12", "Structural queries answer what they say",
  "For every CSR in base 0 or 1: isSymmetric is true exactly when the matrix is square (or its non-local columns are set apart by extptr) and the pattern of its local part (and the values too, if checkValues) equals that of the transpose; hasZeroDiag is true exactly when some row has no non-zero diagonal entry; getBandwidth is max |i-j| over the entries (of a matrix with at least one), getMaxDegree the longest row, getAverageWidth the mean of (last - first column) per row; equals is true exactly when dimensions, structure and values agree. "
  "None depends on the thread count or changes the matrix.",
  ["inputs", "configurations"], "all small matrices, both bases, all thread counts",
  "Drivers call them on matrices that satisfy the predicate; the negative answers and base 1 are untested.",
  ["CSR.cpp"], [("CSR::isSymmetric", "CSR.cpp"), ("CSR::hasZeroDiag", "CSR.cpp"), ("CSR::getBandwidth/getMaxDegree/getAverageWidth", "CSR.cpp"), ("CSR::equals", "CSR.cpp")])
p("P13", "CSR copies are deep and diagonal helpers are exact",
  "The CSR copy constructor produces an independent matrix with equal m, n, rowptr, colidx, values, diagptr, extptr, diag and idiag (those present), so changing or destroying either leaves the other intact; constructDiagPtr sets diagptr[i] to the position of the entry of row i in column i whenever there is one and no later column is listed before it, and computeInverseDiag sets idiag[i] to its reciprocal. "
  "A matrix built over caller-owned arrays never frees those arrays.",
  ["inputs", "configurations"], "all small matrices with full diagonals, both bases, with and without the optional arrays",
  "No driver copies a matrix, and ownership mistakes stay invisible without a memory checker.",
  ["CSR.cpp"], [("CSR::CSR(const CSR&)", "CSR.cpp"), ("CSR::constructDiagPtr", "CSR.cpp"), ("CSR::computeInverseDiag", "CSR.cpp"), ("CSR::dealloc/ownData_", "CSR.cpp")])
p("P14", "Matrix permutation moves every entry to its permuted place",
  "For every square CSR and permutation P with inverse, permute(P, Pinv) returns the matrix whose entry (P[i],P[j]) is the input's (i,j) (rows sorted by column when sort is set), permuteRows only moves rows, permuteRowptr gives the permuted row lengths and permuteColsInPlace only renames columns; nothing is lost, duplicated or altered, diagptr, extptr and idiag follow their rows, and the input is unchanged by the out-of-place versions. "
  "This holds in base 0 and base 1 and for every thread count.",
  ["inputs", "configurations"], "all small matrices, permutations, bases, thread counts, sort flags",
  "Drivers only use the RCM and level-schedule permutations on base-0 symmetric matrices, and mostly without diag arrays.",
  ["Permute.cpp"], [("permuteRowptr", "Permute.cpp"), ("permuteMain_", "Permute.cpp"), ("permuteRowsMain_", "Permute.cpp"), ("permuteColsInPlace_", "Permute.cpp")])
p("P15", "Sparse matrix-vector product computes alpha*A*x + beta*y + gamma",
  "multiplyWithVector(w,alpha,x,beta,y,gamma) sets w[i] = alpha*sum_j A[i][j]*x[j] + beta*y[i] + gamma for every row, for every (possibly rectangular) CSR in base 0 or 1, every alpha, beta and gamma (including 0 and 1) and every thread count, also when w and x, or w and y, are the same array; x, y and A are not otherwise changed, and y may be NULL when beta is 0.",
  ["inputs", "configurations"], "all small sparsity patterns, values, coefficients, aliasing choices, thread counts",
  "pcg uses a few coefficient combinations on square base-0 matrices.",
  ["SpMV.cpp"], [("SpMV_", "SpMV.cpp"), ("multiplyWithVector", "SpMV.cpp")])
p("P16", "Sparse times dense-matrix product honours widths and strides",
  "multiplyWithDenseMatrix sets W(i,c) = alpha*sum_j A[i][j]*X(j,c) + beta*Y(i,c) + gamma for every row i and every column c < k, where each operand is addressed with its own row and column stride, for every k >= 1, both bases and every thread count; the short form multiplies column-major operands, no element outside W's k columns is written, a matrix without values counts as all ones, and Y may be NULL when beta is 0.",
  ["inputs", "configurations"], "all small patterns, widths, strides, coefficients, bases, thread counts",
  "No driver calls it.",
  ["SpMV.cpp"], [("SpMDM_", "SpMV.cpp"), ("multiplyWithDenseMatrix", "SpMV.cpp")])
p("P17", "splitLU separates strictly lower and upper parts without loss",
  "For every CSR whose rows list their lower entries before and upper entries after diagptr, splitLU gives an L with exactly the entries before the diagonal and a U with exactly the entries after it, each row in the original order with the same values, m, n and base as in the source, and rowptr of both consistent; values and idiag are copied exactly when the source has them, non-local columns (extptr) go to U after its local ones, the source is unchanged and the result is the same for every thread count.",
  ["inputs", "configurations"], "all small matrices and thread counts",
  "Only used on fixed symmetric matrices by gs_test.",
  ["SymGS.cpp"], [("splitLU", "SymGS.cpp")])
p("P18", "Symmetric pattern closure is exactly A + A^T",
  "For a matrix with ascending local columns in each row, getSymmetricNnzPattern returns true (and allocates nothing) when its local pattern is already symmetric; otherwise it returns false and the arrays it allocates describe exactly the union of the pattern of A and A^T: rowptr monotone, each position once, columns sorted, the diagonal pointed at by the diag pointer, and, when A has extptr, the non-local columns kept after the local ones at extptr. "
  "The outcome is the same for every thread count and A is unchanged.",
  ["inputs", "schedules", "configurations"], "all small patterns with full diagonal, thread counts",
  "The drivers only reach it for one unsymmetric input, and check nothing about the pattern.",
  ["SymGS.cpp"], [("getSymmetricNnzPattern", "SymGS.cpp")])
p("P19", "The 27-point Laplacian generator builds the stencil matrix",
  "generate3D27PtLaplacian(A,nx,ny,nz,base) builds the nx*ny*nz square matrix in which each grid point is connected to itself with 26 and to every existing neighbour within distance one in each dimension with -1, columns ascending, diagptr at the diagonal, in the requested base, for every grid (including dimensions of 1) and thread count; the cubic overload equals nx=ny=nz=n.",
  ["inputs", "configurations"], "all grids up to the bound, both bases, all thread counts",
  "Drivers only generate cubes of a few sizes.",
  ["Laplacian.cpp"], [("generate3D27PtLaplacian", "Laplacian.cpp")])
p("P20", "A level schedule orders every row exactly once",
  "After LevelSchedule::constructTaskGraph on any structurally symmetric matrix with full diagonal, origToThreadContPerm and threadContToOrigPerm are inverse permutations of the rows, threadBoundaries split the tasks among all threads in order from 0 to ntasks, taskBoundaries split the rows among the tasks in order from 0 to m, and the rows of a task, and of a whole level, are mutually independent, whatever the thread count, costs and entry point used and for useBarrier, transitiveReduction, fuseSpMV, aggregateForVectorization and useMemoryPool in any setting. The same holds when a schedule is built after the thread count has changed, and a schedule built in the memory pool lies wholly in the pool's live part.",
  ["inputs", "configurations"], "all small symmetric patterns, thread counts, cost functions, option settings",
  "Drivers build schedules for five matrices; small levels, empty threads, disconnected rows and chains are rarely hit.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp"], [("constructTaskGraph/findLevels_", "LevelSchedule.cpp"), ("partition of levels into tasks", "LevelSchedule.cpp")])
p("P21", "Schedules enforce every dependency and cannot deadlock",
  "For the forward (and, mirrored, the backward) solve, if row j precedes row i in the original order and the matrix links them, then the task of j is ordered before the task of i by the schedule: either earlier in the same thread's task order, or reached through a chain of parents waits and same-thread order, or separated by a barrier level when useBarrier is set. "
  "No task waits, directly or through others, for itself, so every interleaving of the threads finishes and solves the rows in dependency order.",
  ["inputs", "schedules", "configurations"], "all small symmetric patterns, thread counts, with and without transitive reduction, all interleavings of the waiting threads",
  "A missing edge shows up only under rare timings; tests run each solve a few times on an idle machine.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp"], [("parentsForward/parentsBackward construction", "LevelSchedule.cpp"), ("transitive reduction", "LevelSchedule.cpp"), ("SPMP_LEVEL_SCHEDULE_WAIT/NOTIFY", "LevelSchedule.hpp")])
p("P22", "The fused schedule makes SpMV wait for every vector entry it reads",
  "With fuseSpMV set, the parents recorded in fusedSchedule for each task, together with same-thread task order and the Gauss-Seidel schedule's own ordering, guarantee that when the task's SpMV rows are computed after waiting for them, every row of x they read has already been finalised by the backward sweep; parent lists contain valid task ids and do not overlap one another.",
  ["inputs", "schedules", "configurations"], "all small symmetric patterns and thread counts, with and without transitive reduction",
  "The fused kernels are compared on fixed matrices only, where timing hides a missing parent.",
  ["LevelSchedule.cpp", "gs_spmv_fused.cpp"], [("fused parents construction", "LevelSchedule.cpp"), ("FusedGSAndSpMVSchedule", "gs_spmv_fused.cpp")])
p("P23", "BFS and RCM orderings are valid and breadth-first",
  "For every structurally symmetric matrix (disconnected, with isolated vertices, with or without diagonal entries, base 0 or 1), getBFSPermutation and getRCMPermutation (either source selection) return perm and inversePerm that are mutually inverse permutations of the rows, for every thread count. "
  "Each connected component occupies consecutive positions and, inside it, vertices appear in non-decreasing breadth-first distance from the component's first vertex (last vertex for RCM, which is reversed).",
  ["inputs", "schedules", "configurations"], "all small undirected graphs, thread counts",
  "reordering_test only checks isPerm on a few meshes, with small components taking one code path.",
  ["reordering/RCM.cpp"], [("getRCMPermutation_/getBFSPermutation_", "reordering/RCM.cpp"), ("bfs", "reordering/RCM.cpp"), ("selectSourceWithPseudoDiameter", "reordering/RCM.cpp")], hook_needed="thresholds that select the parallel paths must be overridable at compile time")
p("P24", "Connected components are found exactly under every interleaving",
  "findConnectedComponents gives two vertices the same component exactly when a path connects them (through vertices not hidden by the optional bit vector), each component's root is its smallest vertex, components come in ascending root order with consistent sizes and boundaries and list their vertices in ascending order, for every structurally symmetric pattern, every thread count and every interleaving of the compare-and-swap linking.",
  ["inputs", "schedules", "configurations"], "all small undirected graphs, thread counts and interleavings of the atomic steps",
  "Lost-update interleavings of the union step need precise timing; tests use connected meshes.",
  ["reordering/ConnectedComponents.cpp"], [("findConnectedComponents", "reordering/ConnectedComponents.cpp"), ("union-find with CAS", "reordering/ConnectedComponents.cpp")])
p("P25", "Bipartite BFS assigns true distances under every interleaving",
  "bfsBipartite on any bipartite graph given as a matrix and its transpose returns row and column permutations with their inverses that visit every row and every column exactly once, place each connected component's rows (and columns) contiguously, and order them by non-decreasing breadth-first distance from the component's first row, for every thread count and every interleaving of the visited-bit updates.",
  ["inputs", "schedules", "configurations"], "all small bipartite graphs, thread counts and interleavings",
  "BFSBipartite_test runs fixed inputs and compares nothing about levels.",
  ["reordering/BFSBipartite.cpp", "reordering/BitVector.hpp"], [("bfsBipartite", "reordering/BFSBipartite.cpp"), ("BitVector::testAndSet", "reordering/BitVector.hpp")])
p("P26", "The synk barrier separates phases and never deadlocks",
  "For every team size, cores/threads-per-core split and number of successive uses, no thread returns from its k-th Barrier::wait before every thread has entered its k-th wait, and every thread eventually returns, under every interleaving (including initialisation by init, through getInstance, and of the instance used after the thread count has changed).",
  ["schedules", "histories", "configurations"], "all interleavings of up to 4 threads over several consecutive uses",
  "A barrier that leaks early needs a specific interleaving; tests only time it.",
  ["synk/barrier.cpp", "synk/barrier.hpp", "synk/synk.cpp", "synk/atomic.h"], [("Barrier::wait (dissemination, sense/parity)", "synk/barrier.cpp"), ("Barrier::init", "synk/barrier.cpp")])
p("P27", "The reducing barrier returns the full reduction to every thread",
  "Every ReduceBarrier::wait call of round k returns the reduction, by the supplied associative and commutative function with its zero, of exactly the values passed by all threads in round k, to every thread, for every cores/threads-per-core split (powers of two or not), under every interleaving and over successive rounds.",
  ["schedules", "histories", "inputs", "configurations"], "all values, all interleavings of up to 4 threads over successive rounds",
  "No test uses it; overwriting a partner's value early needs a rare interleaving.",
  ["synk/reduce.hpp", "synk/synk.cpp"], [("ReduceBarrier::wait", "synk/reduce.hpp"), ("ReduceBarrier::init (pseudo cores)", "synk/reduce.hpp")])
p("P28", "The memory pool never hands out overlapping live blocks",
  "From every valid head/tail state, a MemoryPool allocate or allocateFront request that fits in the free part returns a block that lies inside the pool, has the requested alignment, and does not overlap any live byte (the region from head to tail, wrapping), and the new head/tail describe exactly the old live region plus the block (plus skipped padding); contains is true for exactly the live region, and setHead/setTail/deallocateAll only shrink it.",
  ["histories", "inputs"], "all pool states, request sizes and alignments (one inductive step)",
  "No driver enables the pool, and wrap-around needs an allocation history that just reaches the end.",
  ["MemoryPool.cpp", "MemoryPool.hpp"], [("allocate/allocateFront", "MemoryPool.cpp"), ("contains, setHead, setTail", "MemoryPool.cpp")])
p("P29", "Vector Market files load faithfully or are rejected",
  "loadVectorMatrixMarket on a well-formed array file returns true with m, n and the m*n values in file order; headers that are not a supported array banner, missing or non-numeric values, truncated files and negative or overflowing sizes return false; and no input makes it read or write outside the memory it allocates.",
  ["inputs", "fault_sequences"], "all small files with arbitrary header integers, values and truncation points",
  "gs_test/trsv_test load one right-hand-side file.",
  ["Vector.cpp", "mm_io.cpp"], [("loadVectorMatrixMarket", "Vector.cpp"), ("mm_read_mtx_array_size", "mm_io.cpp")])
p("P30", "Parallel library routines are free of schedule-dependent races",
  "In every parallel region of conversion, transpose, permutation, symmetrisation, product, split, generation and schedule construction (the breadth-first and connected-component searches, which race deliberately, excepted), two threads never access the same memory location between the same two synchronisation points with one of them changing its value, except through atomic operations; hence every schedule and thread count produces the same result as one thread.",
  ["schedules", "inputs", "configurations"], "all small inputs, 2-4 threads, all pairs of accesses between barriers",
  "Races on an idle machine with small inputs almost never change a result, and the tests compare nothing across thread counts.",
  ["CSR.cpp", "Permute.cpp", "SymGS.cpp", "SpMV.cpp", "Laplacian.cpp", "LevelSchedule.cpp", "Utils.cpp"], [("omp parallel regions", "CSR.cpp, Permute.cpp, SymGS.cpp, LevelSchedule.cpp")])
p("P31", "The instrumented barrier separates phases and accounts waiting times exactly",
  "LoadImba::wait keeps its phases apart and always returns under every interleaving, for every cores/threads-per-core split; over any clock readings, every thread's count, minimum, maximum, total and barrier time are exactly those of its waits since the last reset, reset clears them for all threads, and instances created through initializeInstance/getInstance serve the whole team and are released by deleteInstance.",
  ["schedules", "histories", "inputs", "configurations"], "all interleavings of up to 4 threads, all clock readings, over successive waits and resets",
  "No test uses it; clock readings and interleavings that expose an early leave or a lost maximum cannot be forced.",
  ["synk/loadimba.cpp", "synk/loadimba.hpp"], [("LoadImba::wait", "synk/loadimba.cpp"), ("LoadImba::init/reset", "synk/loadimba.cpp"), ("initializeInstance/deleteInstance", "synk/loadimba.hpp")])
p("P32", "What the library allocates is released exactly once and files are closed",
  "Matrices (copies, transposes, permutations, patterns, splits, Laplacians, loaded and converted ones), schedules, orderings, barriers and pools release exactly the memory they own when they are destroyed, never memory they were given; routines that return release every temporary they allocated and close every file they opened, also when they reject their input; and no block is used after its release or released twice.",
  ["inputs", "configurations", "fault_sequences"], "all small inputs and options of every routine that allocates or opens files",
  "Tests never count allocations or handles; most leaks sit on option or rejection paths that they do not take.",
  ["CSR.cpp", "CSR.hpp", "COO.cpp", "mm_io.cpp", "Vector.cpp", "Permute.cpp", "SymGS.cpp", "Laplacian.cpp", "LevelSchedule.cpp", "reordering/RCM.cpp", "reordering/ConnectedComponents.cpp", "reordering/BFSBipartite.cpp"], [("CSR::dealloc, ownData_", "CSR.cpp"), ("findConnectedComponents", "reordering/ConnectedComponents.cpp"), ("load/storeMatrixMarket", "COO.cpp"), ("LevelSchedule destructor", "LevelSchedule.cpp")])
p("P33", "Matrix Market primitives read back what they write",
  "In mm_io, every combination of storage, data type and symmetry that is valid survives typecode to banner to typecode, size lines of any sizes are read back, and coordinate files written by mm_write_mtx_crd are read back entry by entry by mm_read_mtx_crd and mm_read_unsymmetric_sparse, for pattern, integer, real and complex values; missing, truncated or unsupported files give an error code instead of data, and no file stays open.",
  ["inputs", "fault_sequences"], "all type codes, all sizes, all small coordinate files and truncation points",
  "The tests read a few fixed real files through one path.",
  ["mm_io.cpp", "mm_io.h"], [("mm_write_mtx_crd/mm_read_mtx_crd", "mm_io.cpp"), ("mm_read_banner, mm_typecode_to_str", "mm_io.cpp"), ("mm_read_unsymmetric_sparse", "mm_io.cpp")])
p("P34", "Bit vectors keep bits apart and let exactly one thread set a bit",
  "A new BitVector is clear; set, testAndSet, get and atomicClear affect and report only the named bit, for any length and any sequence; of several threads that testAndSet a clear bit exactly one is told that it set the bit, and operations of different threads on different bits do not disturb each other, under every interleaving.",
  ["schedules", "histories", "inputs"], "all operation sequences on small vectors and all interleavings of up to 3 threads",
  "Two threads must hit the same word between a load and a store, which tests do not reproduce.",
  ["reordering/BitVector.hpp"], [("testAndSet/set/atomicClear", "reordering/BitVector.hpp")])
p("P35", "Binary matrix files are rejected unless complete and consistent",
  "CSR::loadBin and the CSR(file.bin) constructor load a file exactly when it begins with the class id, its sizes are not negative, its row lengths are not negative and add up to the number of entries, its columns are not negative and nothing is cut off; what is loaded is what the file says. Any other file, and one that cannot be opened, leaves an empty matrix (m = n = 0, no arrays), whatever the object held before; no file makes the loader read or write outside its memory, leak, or keep the file open.",
  ["inputs", "fault_sequences"], "all small files: any identifier, sizes, row lengths, columns, values and lengths of the file",
  "The tests load only well-formed binary files they have just written.",
  ["CSR.cpp"], [("CSR::loadBin", "CSR.cpp"), ("CSR::alloc/dealloc", "CSR.cpp"), ("CSR(file) constructor", "CSR.cpp")])
p("P36", "correctnessCheck accepts exactly the vectors within the tolerance",
  "correctnessCheck(expected, actual, n, tol, ignoreSmallerThanThis) returns true exactly when every one of the n elements is either equal to the expected one, or differs from it by less than tol relative to the expected magnitude, or is - like the expected one - smaller in magnitude than ignoreSmallerThanThis; a result that is not a number, or infinite where a finite one is expected, is never accepted, the defaults are a tolerance of 1e-5 and nothing ignored, and neither vector is changed.",
  ["inputs"], "all vectors, tolerances and ignored magnitudes",
  "The drivers call it only on results that are right, so a comparison that accepts wrong ones (or NaN) passes every test.",
  ["Utils.hpp"], [("correctnessCheck", "Utils.hpp")])
with open(OUT, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
