"""Writes properties.jsonl (kept as a script so that statements are readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "Blocking routines reject illegal arguments by position, before any effect",
  """Every blocking routine returns -i only when its i-th argument is illegal as its documentation states (enumerated
  options, signs and mutual bounds of dimensions, minimal leading dimensions), and whenever some argument is illegal it
  returns such a code. It does so before reading or writing a user array, changing library settings, allocating
  memory or taking a quick return, for every combination of argument values including empty problems.""",
  ["inputs"], "all values of all arguments of the 222 blocking routines in the four precisions",
  "The tests call the routines with legal arguments only; no test passes an illegal value, let alone every combination.",
  ["compute/*.c"], [("argument checks at the head of each plasma_<p><routine>", "compute/z*.c")],
  ["return value of plasma_<p><routine>"])

p("C02", "Asynchronous routines turn every invalid argument into a failed sequence",
  """Every asynchronous (plasma_omp_) routine records a failure in the caller's sequence and request, and submits no
  computation, when any matrix descriptor passed to it fails the descriptor check, when an enumerated option has an
  undocumented value, or when the library is not initialised. When the sequence or request itself is
  missing, the routine computes nothing and does not dereference it.""",
  ["inputs"], "all values of the options and descriptors of every asynchronous routine",
  "The tests reach these routines only through the blocking ones, which have already validated everything.",
  ["compute/*.c", "control/async.c"],
  [("checks at the head of plasma_omp_<p><routine>", "compute/z*.c"), ("plasma_request_fail", "control/async.c")],
  ["sequence->status", "request->status"])

p("C03", "Library life cycle and settings",
  """Every computational routine called while the library is not initialised reports it without any
  other effect: it returns PlasmaErrorNotInitialized (blocking), fails the sequence (asynchronous), or ends the process
  with an error message (routines that treat it as fatal). Initialising twice or finalising when not initialised is refused,
  settings are only changed to valid values and each setting is read back exactly as set; initialisation restores the
  documented defaults and finalisation releases what initialisation acquired.""",
  ["histories"], "all sequences of init, finalize, set, get and computational calls",
  "Tests initialise once, set a few values and finalise once.",
  ["control/context.c", "control/tuning.c", "compute/*.c"],
  [("plasma_initialized_g", "control/context.c"), ("plasma_set / plasma_get", "control/context.c"),
   ("guards on plasma_context_self", "compute/*.c")])

p("C04", "Numerical failures reach the caller with the right global index",
  """When a tile kernel of a factorisation reports a failure (a non-positive-definite minor, an exactly zero pivot, a
  singular triangular factor, an SVD that does not converge), the sequence is failed with the index of the failing row of
  the whole matrix, and the blocking routine returns it. A blocking routine's return
  value is the status of its sequence: no failure recorded during the computation is dropped or replaced by success.""",
  ["inputs"], "all matrices on which some kernel reports a failure, in every tile position",
  "The tests use well conditioned or diagonally dominant matrices; error indices in later tiles are never produced.",
  ["core_blas/core_*.c", "compute/*.c", "control/async.c"],
  [("plasma_request_fail(sequence, request, iinfo+info)", "core_blas/core_zpotrf.c"),
   ("return sequence.status", "compute/z*.c")])

p("C05", "A failed sequence does no further computation",
  """Once a sequence has failed, no tile kernel of that sequence that starts afterwards modifies matrix data: every
  parallel tile algorithm returns at once when it is entered with a failed sequence, and every task it submits tests the
  sequence before computing.""",
  ["schedules", "inputs"], "all task orders and all points at which a task fails",
  "Tests contain no failing factorisation, so the guards are never exercised.",
  ["compute/p*.c", "core_blas/core_*.c"],
  [("if (sequence->status == PlasmaSuccess) in each task", "core_blas/core_z*.c")])

p("C06", "Task dependences cover every tile a task reads or writes",
  """Every task declares a dependence on each tile, vector segment, or auxiliary tile it accesses through a pointer: what
  its body may write is declared as out or inout, and what it may read is declared at all, on the address that other
  tasks use for the same data. Consequently any two tasks that touch the same tile with at least one write are ordered,
  in submission order, under every schedule.""",
  ["schedules"], "all interleavings of all tasks of all algorithms, for any number of threads",
  "A missing dependence shows only under particular interleavings; tests run a few schedules.",
  ["core_blas/core_*.c", "compute/p*.c"],
  [("#pragma omp task depend(...)", "core_blas/core_z*.c and compute/pz*.c")])

p("C07", "Everything a routine allocates is released on every path",
  """On every path through every routine - success, quick return, failed allocation, failed computation - memory,
  descriptors and workspaces that the routine acquired are released exactly once before it returns, except results handed to
  the caller. Nothing is used after it was released, and no task may still be using it when it is released.""",
  ["inputs", "fault_sequences"], "all paths, in particular those after the k-th allocation fails",
  "Tests do not make allocations fail and do not run under a leak checker.",
  ["compute/*.c", "control/*.c", "core_blas/*.c"],
  [("plasma_desc_destroy / plasma_workspace_destroy / free", "compute/z*.c")])

p("C08", "Allocation failures are reported, never dereferenced",
  """The result of every memory allocation and of every descriptor or workspace creation is tested before the object is
  used; when it failed, the routine reports an error to its caller (an error code, or a failed sequence) and does not
  report success. Null results are never dereferenced or passed on to computation.""",
  ["fault_sequences"], "failure of any one allocation at any point",
  "No test injects allocation failures.",
  ["compute/*.c", "control/*.c", "core_blas/*.c"],
  [("if (x == NULL) ... PlasmaErrorOutOfMemory", "control/descriptor.c, control/workspace.c, compute/z*.c")])

p("C09", "User matrices are translated in and out exactly as documented",
  """A blocking routine copies each matrix argument that it documents as input into tile layout before the
  computation uses it, and copies each output matrix back to the same user array with the same leading dimension after
  the computation and before it returns; arrays documented as input only are never written. Matrices are
  translated by the routine matching their storage (general, triangular with the same uplo, or band).""",
  ["inputs"], "all argument values and all paths of every blocking routine",
  "Tests compare results for a few sizes; an input array that is overwritten, or an output copied back "
  "only on some path, need not show.",
  ["compute/*.c"],
  [("plasma_omp_<p>ge2desc / desc2ge and their triangular and band variants", "compute/z*.c")])

p("C10", "Every tile is addressed with its own leading dimension and extents",
  """Whenever a tile algorithm passes a tile to a kernel, the leading dimension it passes is the allocated height of
  that tile (of its band storage for band matrices), and row and column extents of the operands agree with the tile's
  position and with each other, also for the last, partial row and column of tiles and for sub-matrix views.""",
  ["inputs"], "all matrix sizes, tile sizes and view offsets, in particular sizes that are not multiples of the tile size",
  "Tests use a few sizes; wrong leading dimensions on boundary tiles silently read neighbouring data.",
  ["compute/p*.c", "include/plasma_descriptor.h"],
  [("plasma_tile_mmain / mview / nview", "include/plasma_descriptor.h")])

p("C11", "Options and scalars reach the computation unchanged",
  """The side, uplo, trans and diag options and the scalars given to a blocking or asynchronous routine are passed
  unchanged down to the tile algorithm, and the tile algorithm handles every documented combination of options, computing
  something on each of them. The blocking routine and the asynchronous one therefore compute the same operation.""",
  ["inputs"], "all combinations of option values",
  "Tests sample a few of the up to 48 combinations per routine and mostly one set of scalars.",
  ["compute/*.c"], [("calls plasma_<p>x -> plasma_omp_<p>x -> plasma_p<p>x", "compute/z*.c")])

p("C12", "Quick returns skip only work that changes nothing",
  """A routine returns early with success only when the documented operation leaves all its outputs unchanged or
  undefined: when a relevant dimension is zero, or when the scalars make the update the identity. In particular an
  output that must be scaled by beta, or set, is not skipped because another dimension is zero or alpha is zero.""",
  ["inputs"], "all dimensions and scalars",
  "Tests do not combine zero dimensions with scalars other than the default.",
  ["compute/*.c"], [("quick return conditions", "compute/z*.c")])

p("C21", "The submitting thread waits before it touches what unfinished tasks use",
  """A routine that submits tasks and then itself reads or writes data those tasks use - a norm or an iteration count it
  tests, a workspace it hands to other tasks under another dependence address, a descriptor or a local variable whose
  address the tasks hold - first waits for them. So results read by the submitting thread are final and workspaces are
  never used by two operations at a time, under every schedule.""",
  ["schedules"], "all interleavings of the submitting thread with the tasks it has submitted",
  "With the few threads and small matrices of the tests the tasks have nearly always finished in time.",
  ["compute/*.c", "core_blas/*.c"],
  [("#pragma omp taskwait", "compute/zcgesv.c, compute/pzlange.c, compute/pztbsm.c and others"),
   ("iterative refinement loops", "compute/zcgesv.c, compute/zcposv.c, compute/zcgbsv.c")])

p("C22", "Each tile algorithm performs the kernel calls of its operation in a valid order",
  """For every number of tiles, every position of a view and every option, the tile algorithms (matrix products, rank
  updates, triangular products and solves, Cholesky, LU and band factorizations, QR/LQ and the application of Q, inversion,
  norms, copies, additions, scalings and layout conversions) submit exactly the tile operations that make up the
  operation: none is missing, none is done twice, none concerns a tile, an extent, a transposition or a scalar it should
  not, and operations on a common tile come in an order that the operation allows. In particular beta multiplies each
  tile of the result exactly once and every tile of the result is written, for products with an empty inner dimension too.""",
  ["inputs"], "all matrix sizes, tile sizes, views, options and scalars",
  "The tests run a few sizes with a few tiles from the first row and column on and with fixed options; edge cases (views, short last tiles, more rows than columns, special scalars) are not sampled.",
  ["compute/p*.c"],
  [("for (int k = 0; k < ", "loop nests of compute/pz*.c"),
   ("plasma_core_omp_z", "the kernels they submit")])

p("C16", "Each tile kernel computes the operation it is named for",
  """Whatever its arguments, a tile kernel of core_blas performs the operation it is named for: the kernels that stand for
  one BLAS or LAPACK operation make that call with their own options, sizes, scalars, matrices and leading dimensions; the
  kernels of the QR and LQ factorizations (geqrt, gelqt, tsqrt, tslqt, ttqrt, ttlqt) and of the application of their
  orthogonal factors (unmqr, unmlq, tsmqr, tsmlq, ttmqr, ttmlq, parfb, pamm, pemv) apply every block of reflectors once,
  to the right rows and columns, in the right order, with the right transposition and the short last block at its real
  size; the LU panel (search, recording and interchange of pivots, scaling, updates), whatever the number of its threads,
  and the row and column interchanges are those of the factorization; additions, copies, initializations and the kernels
  of the norms (sums, maxima and scaled sums of squares) treat
  every element of the part of the tile that their options select once and no other, conjugated or not as the option says;
  and the task that wraps a kernel hands it its own arguments unchanged.""",
  ["inputs"], "all tile sizes, inner block sizes, leading dimensions, options and scalars",
  "The tests run a few tile sizes, nearly always square, with one inner block size that divides them, and reach the kernels only through routines that use few of their options.",
  ["core_blas/*.c"],
  [("for (int i = 0; i < k; i += ib)", "core_zgeqrt.c, core_zunmqr.c, core_ztsmqr.c and others"),
   ("plasma_core_omp_*", "the task wrappers of core_blas")])

p("C23", "Threads that share a panel or an interchange synchronise",
  """Whatever the number of panel threads and whatever their timing, the threads that together factor an LU panel or apply
  symmetric interchanges never access the same element, one of them writing, unless a barrier lies between; all of them
  pass the same barriers equally often, as many as the barrier counts; each rank runs once, in a task of its own, and all
  share one barrier, one info and arrays with a slot for each; and the barrier lets nobody pass before all have arrived, round after round.""",
  ["schedules"], "all numbers of panel threads, all interleavings of their accesses",
  "The tests use one panel thread, and with more a missing barrier shows only when the threads meet in the wrong order.",
  ["core_blas/core_zgetrf.c", "core_blas/core_zheswp.c", "compute/pzgetrf.c", "compute/pzgbtrf.c", "compute/pzhetrf_aasen.c", "control/barrier.c"],
  [("plasma_barrier_wait(barrier, size)", "core_zgetrf.c"), ("shared(barrier", "pzgetrf.c, pzgbtrf.c, pzhetrf_aasen.c"),
   ("__sync_fetch_and_add", "control/barrier.c")])

p("C19", "A tile descriptor describes a tiling of its matrix",
  """For every size, tile size and submatrix: what plasma_desc_*_init, plasma_desc_*_create and plasma_desc_view put into a descriptor
  (tile counts, offsets of the four parts, band widths in tiles) follows from the sizes given; the storage allocated is what
  the tiles take; plasma_desc_check accepts exactly the descriptors of tile-aligned submatrices inside their matrix (and bands that
  fit it); and the extents and addresses computed from a descriptor are those of the tile asked for, for views and
  for a last row or column of tiles that is not full, so that distinct tiles never overlap and none leaves the storage.""",
  ["inputs"], "all sizes, tile sizes, offsets and matrix types",
  "The tests use few shapes and never a view with an offset; an extent wrong only for some remainder or offset is not sampled.",
  ["include/plasma_descriptor.h", "control/descriptor.c"],
  [("plasma_tile_addr", "include/plasma_descriptor.h"), ("plasma_desc_view", "control/descriptor.c"), ("plasma_desc_check", "control/descriptor.c")])

p("C20", "Option constants, LAPACK letters and CBLAS values agree",
  """For every character, the translators from LAPACK letters (plasma_trans_const, plasma_uplo_const, plasma_norm_const, ...) give the
  constant that letter stands for in LAPACK, in either case, and the invalid constant (for uplo: general) for every
  other character. For every integer, lapack_const gives the LAPACK letter of the option constant with that value and the null
  character for a value that is no option constant, without reading outside its table. Constants handed to CBLAS
  have CBLAS's values. No two options share a value, no two error codes do, and no error code can be mistaken
  for success or for the position of an argument.""",
  ["inputs"], "all characters, all integers, all option constants and error codes",
  "No test calls the translators, and the tests use a handful of the constants lapack_const translates.",
  ["control/constants.c", "include/plasma_core_blas.h", "include/plasma_types.h"],
  [("plasma_*_const", "control/constants.c"), ("lapack_const", "include/plasma_core_blas.h"), ("enum", "include/plasma_types.h")])


# properties outside the reach of static analysis, listed in MANIFEST.json's not_applicable
p("C13", "Results are numerically backward stable",
  """For every input matrix the computed factorisations, solutions, least-squares solutions, inverses, norms and singular
  values have the residuals and orthogonality that the algorithms of the documentation promise (a modest multiple of
  the unit roundoff), whatever the conditioning, scaling and tile size.""",
  ["inputs"], "all matrices, sizes and tile sizes",
  "The tests sample random well-conditioned matrices of a few sizes.",
  ["compute/*.c", "core_blas/*.c"], [("all routines", "compute/")])

p("C14", "Reduction trees eliminate every tile exactly once",
  """For every number of tile rows and columns and every tree type, the table of operations built by plasma_tree_operations
  triangularises and annihilates each tile below the diagonal exactly once, with a tile that is still alive and
  triangular (or square, for TS kernels) in that column, in an order that respects these conditions.""",
  ["inputs"], "all numbers of tiles, tree types and thread counts",
  "The tests use a few shapes with the default tree.",
  ["control/tree.c"], [("plasma_tree_operations", "control/tree.c")])

p("C15", "Iterative refinement ends with a solution of working precision",
  """The mixed-precision solvers either return a solution as accurate as the working-precision solver's, within the number of
  iterations they report, or fall back to the working-precision solver and say so.""",
  ["inputs"], "all matrices", "The tests use matrices on which the refinement converges at once.",
  ["compute/zcgesv.c", "compute/zcposv.c", "compute/zcgbsv.c"], [("refinement loop", "compute/zc*.c")])

p("C17", "Every submitted task is eventually executed and every blocking call returns",
  """For every number of threads and every schedule, all tasks of a call are executed and the call returns.""",
  ["schedules"], "all schedules and thread counts", "The tests run one schedule per call.",
  ["compute/pz*.c", "core_blas/*.c"], [("spin loops", "core_blas/core_zgetrf.c, compute/pzgbbrd_static.c")])

p("C18", "Results do not depend on the schedule",
  """Two calls with the same arguments, settings and number of threads give results that are the same bit by bit, whatever the
  order in which the runtime executes the tasks.""",
  ["schedules"], "all schedules and thread counts", "The tests compare with a tolerance.",
  ["compute/pz*.c", "core_blas/*.c"], [("task dependences", "core_blas/*.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
