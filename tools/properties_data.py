"""The properties of lalib: statements, anchors, and how they are decided."""
V, VC = "include/lalib/ops/vec_ops.hpp", "include/lalib/ops/vec_ops_core.hpp"
DVEC, SVEC = "include/lalib/vec/dyn_vec.hpp", "include/lalib/vec/sized_vec.hpp"
DMAT, SMAT, SPM = "include/lalib/mat/dyn_mat.hpp", "include/lalib/mat/sized_mat.hpp", "include/lalib/mat/sp_mat.hpp"
MO, MV, MVC = "include/lalib/ops/mat_ops.hpp", "include/lalib/ops/mat_vec_ops.hpp", "include/lalib/ops/mat_vec_ops_core.hpp"
MM, MMC, SPO = "include/lalib/ops/mat_mat_ops.hpp", "include/lalib/ops/mat_mat_ops_core.hpp", "include/lalib/ops/sp_mat_ops.hpp"
ERR, ORT, TT = "include/lalib/err/error.hpp", "include/lalib/ops/orthogonal.hpp", "include/lalib/type_traits.hpp"
GM, ILU, TRI, CH = ("include/lalib/solver/" + x for x in ("gmres.hpp", "ilu.hpp", "tri_diag.hpp", "cholesky_factorization.hpp"))
TDMA, CHI = "include/lalib/solver/internal/tdma.hpp", "include/lalib/solver/internal/cholesky_decomposition.hpp"
GTSV, POTR = "include/lalib/solver/lapack/gtsv.hpp", "include/lalib/solver/lapack/potr.hpp"

FLOW = ("array-dataflow analysis of the compiled IR: closed formulas of the results for symbolic sizes and elements, compared with the "
        "definition by polynomial and linear-integer normal forms")
FLOW_NOTE = ("On the unchanged tree every obligation is discharged for all sizes and all element values (field arithmetic, rounding excluded); "
             "code the analysis cannot summarise is undecided, not accepted")

PROPS, NOT_APPLICABLE = [], {}
NOTES = ("Static analysis only: nothing of lalib is executed. check.py decides one property against the current headers in /repo/include "
         "(or VP_REPO). Exit 3 means that the analysis itself could not run.")


def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                                   observe_at=list(observe), hook_needed=None),
                      technique=technique, level=level, level_note=note))


def NA(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, "", "")
    NOT_APPLICABLE[id] = reason


P("C01", "Element-wise vector and matrix operations compute their definition",
  "For operands of equal size, negation, addition, subtraction, scaling by a scalar (also as operators and as division by a scalar) and y := alpha*x + y "
  "give every element of the destination or returned object the value its definition gives, and leave every other operand as it was; an operation that "
  "writes to a destination argument returns a reference to that destination. This holds for dynamic and fixed-size operands in every documented mix, "
  "for real and complex elements of both precisions, and for every size including zero, with the built-in and the BLAS backend.",
  ["inputs", "configurations"], "all sizes, all element and scalar values, element types float, double and their complex types, both backends",
  "The tests use a handful of sizes (mostly 3 to 5) and values; loops that treat the first, last or the element past a threshold differently, or only one backend or type, pass them.",
  [V, VC, MO, DVEC, SVEC, DMAT, SMAT],
  [("element-wise kernels over the raw element arrays", VC), ("overloads for every mix of operand kinds", V), ("matrix sums, differences and scaling", MO)],
  FLOW, FLOW_NOTE, observe=["elements of the destination or returned object", "elements of the other operands", "the returned reference"])

P("C02", "Dot, norm and cross products equal their mathematical definition",
  "The dot product of two vectors of equal size is the sum over all elements of a_i*b_i (zero for empty vectors, no conjugation), the 2-norm is the square root of the sum of "
  "squared magnitudes of all elements, the two-dimensional cross product is a0*b1 - a1*b0, and the three-dimensional one has the usual three "
  "components, its accumulating form adding them to the destination. This holds for every mix of dynamic and fixed-size operands, every size, real and complex "
  "elements of both precisions and each backend, and the operands keep their values.",
  ["inputs", "configurations"], "all sizes, all element values, four element types, both backends",
  "Tests compare a few short real vectors; complex elements, long vectors, empty vectors and the less used operand mixes are not reached.",
  [V, VC, DVEC, SVEC],
  [("dot and norm kernels", VC), ("cross products of fixed and dynamic vectors", V)],
  FLOW, FLOW_NOTE + "; the ambiguous two-operand cross product of two dynamic vectors is a listed finding", observe=["the returned value", "the destination of the cross product"])

P("C03", "Dense products and the 2x2 inverse equal their definition for every shape",
  "For operands of compatible shapes, y := alpha*A*x + beta*y and C := alpha*A*B + beta*C (and the operators A*x and A*B) give every element of the result the "
  "value of the mathematical definition, for square and rectangular matrices, for single rows and columns and for dimensions of zero, and leave A, x and B unchanged. "
  "Inverting a 2x2 matrix gives the adjugate divided by the determinant, and both backends, every mix of fixed and dynamic operands and all four element types agree on this.",
  ["inputs", "configurations"], "all shapes, all values of elements, alpha and beta, four element types, both backends",
  "The tests multiply one or two small, mostly square, matrices with alpha and beta of simple values; wrong strides, swapped dimensions or dropped beta terms show only for other shapes or values.",
  [MV, MVC, MM, MMC, DMAT, SMAT],
  [("matrix-vector kernel and its BLAS call", MVC), ("matrix-matrix kernel and its BLAS call", MMC), ("operand checks and overloads", MM)],
  FLOW + "; the BLAS routines are replaced by their defining formulas, including strides and transposition", FLOW_NOTE,
  observe=["elements of y, C or the returned object"])

P("C04", "Sparse matrix-vector products equal their definition",
  "For a matrix in compressed row form with rising row pointers and column indices below the number of columns, y := alpha*A*x + beta*y and A*x give element i of the result the value "
  "beta*y_i (nothing for A*x) plus alpha times the sum of A_ik*x_k over the stored entries of row i, whether or not rows are empty, and leave the matrix and x as they were; "
  "mul returns a reference to y. This holds for every pattern, size and element type.",
  ["inputs"], "all sparsity patterns, sizes, element values, four element types, both backends",
  "Tests multiply one or two fixed patterns without empty rows; a row loop that is off by one row or entry only for some patterns passes them.",
  [MVC, MV, SPM], [("row loop over the stored entries", MVC), ("overloads taking SpMat", MV)],
  FLOW + "; index arrays enter as symbolic rising sequences", FLOW_NOTE, observe=["elements of y or of the returned vector", "the returned reference"])

P("C05", "A destination that is also an operand receives the same result",
  "When the destination of negation, addition, subtraction, y := alpha*x + y, scaling, a matrix-vector or a matrix-matrix product, of a 2x2 inversion or of a sparse matrix-vector "
  "product is one of its own operands (or the scalar is an element of it), the destination ends up with the value the operation would give to a separate destination, and every other operand is unchanged. "
  "This holds for every size, element type and backend.",
  ["inputs", "configurations"], "all sizes and values; each way in which one object can appear in two roles",
  "Only few of the tests pass one object twice, with fixed small sizes; in-place kernels that read elements already overwritten are right for distinct operands.",
  [V, VC, MO, MV, MVC, MM, MMC, SMAT, SPM],
  [("copies made before the product overwrites its operand", MV), ("copies made before the matrix product", MM), ("element-wise kernels that read before they write", VC)],
  FLOW + " with the same object in two roles", FLOW_NOTE, observe=["elements of the destination and of the other operands"])

P("C06", "Operands of different sizes are reported before anything is changed",
  "Negation, addition, subtraction and y := alpha*x + y of vectors, and the dot product, raise the library's size-mismatch exception exactly when the sizes of their "
  "operands (the destination included) differ, for every mix of dynamic and fixed-size vectors. When it is raised, no element of any operand has been changed.",
  ["inputs", "configurations"], "all combinations of sizes, all element types and backends",
  "Tests try one or two unequal sizes; a check that is missing for one operand, too strict, of the wrong type, or made after the first write passes them.",
  [V, DVEC, SVEC, ERR], [("size comparisons at the entry of every operation", V), ("size check of the member dot product", SVEC), ("the exception type", ERR)],
  FLOW + "; here the condition under which each exception leaves the call, and the array contents at that point", FLOW_NOTE,
  observe=["the exception type", "elements of the operands after the exception"])

P("C07", "Errors the library reports reach the caller as catchable exceptions",
  "Every error the library detects (operands of different sizes, elements that cannot be accessed, shapes that cannot be converted, factorizations that fail) leaves the operation the user called as a C++ exception derived "
  "from std::exception: between the place that raises it and the caller there is no noexcept function, destructor or parallel region that would turn it into std::terminate and no handler of the library that would drop it, "
  "and the library never ends the program with abort, exit or terminate in release builds.",
  ["inputs", "programs"], "every throw reachable from any public operation, each backend, all supported element types",
  "A test has to trigger each error through each entry point; a noexcept on one wrapper, or one catch-all handler, only shows for the operation and the error that pass through it.",
  [ERR, V, DVEC, DMAT, SMAT, SPM, TRI, CH, ILU, TDMA, CHI, GTSV, POTR],
  [("exception classes", ERR), ("size checks", V), ("failed factorizations", CHI), ("noexcept specifications", DMAT)],
  "exception-flow analysis: each raise in the compiled IR of every public operation is followed along its unwind edges to the caller, a handler or a terminate block",
  "Complete for the instantiated operations (each public operation x element type x backend). Errors of the standard library itself (out of memory, over-long strings) are not followed, except std::out_of_range raised on the library's behalf. A handler that drops an error is accepted only where the error cannot occur",
  observe=["exceptions seen by the caller", "process termination"])

P("C08", "Loops marked for parallel execution are free of races and of order dependence",
  "Every loop or region that the library marks for parallel, vector or accelerator execution may be run with any number of threads, any vector width and any schedule: no iteration writes an object or element that another "
  "iteration reads or writes, except through a reduction whose operator and initial value match the update, per-iteration variables are private, and no exception leaves the region. So the results do not depend on the number of threads, apart from the rounding of reductions.",
  ["schedules", "configurations"], "all schedules, thread counts and vector widths; every OpenMP directive in every backend",
  "The tests run short vectors on which races rarely show, compilers may ignore the pragmas, and a race need not show in any given run.",
  [VC, MVC], [("parallel element-wise loops", VC), ("reductions of dot and norm", VC), ("declared reductions for complex elements", VC), ("vectorised inner loops", MVC)],
  "dependence and data-sharing rules over the typed syntax tree of every OpenMP directive", "Accesses are decided where the index is affine in the loop counters or local values; other forms and calls in a loop body are counted as open and accepted. Different pointer parameters are assumed not to overlap partially",
  observe=["elements of the destinations", "values of reductions"])

P("C09", "Operations keep no state between calls and never write constant operands",
  "The result of every library operation depends only on its arguments (and the object it is called on): no operation writes an object with static, thread or global storage, so calls on different objects can run "
  "in parallel and the history of earlier calls has no influence; operands and objects passed as constant are never written, not even through mutable members or casts, so several threads may read them at once; and no operation "
  "changes settings of the process or depends on time, random numbers or the environment.",
  ["histories", "schedules"], "all call histories and interleavings of calls on different objects; every public operation, all supported element types, each backend",
  "Tests call each operation once or twice from one thread; a cached buffer or counter shows only for a particular order of calls, or for calls that overlap in time.",
  [V, VC, DVEC, DMAT, SMAT, SPM, MV, MM, GM, ILU, TRI, CH, ORT],
  [("kernels on raw arrays", VC), ("constant member functions", DMAT), ("solvers with internal factors", CH), ("zero elements returned by reference", SPM)],
  "points-to and effect analysis of the compiled IR of every public operation: each store, copy and call is attributed to the objects it may write",
  "Complete for the instantiated operations. A constant table, or a static object that is initialised once from nothing but constants, is accepted; any other static or thread-local object that is written, even a scratch buffer, is a violation",
  observe=["results of repeated and overlapping calls", "elements of constant operands"])

P("C10", "Dense vectors and matrices store and expose their elements in row-major order",
  "Element i of a vector is the i-th element from data() and begin(), element (i,j) of an n x m matrix the (i*m+j)-th, and every accessor (call and index operators, at, mut_at, data, "
  "iterators, const or not) designates that same element of the object; end() lies size() (or n*m) elements after begin(), and size() and shape() tell the dimensions the object was made "
  "with. Constructors from lists, arrays and vectors, copies, moves, filled, diag and identity produce exactly the elements and the dimensions that their arguments define; "
  "a fixed-size object made from a std::vector of another length raises an exception. This holds for all sizes (fixed-size types: representative sizes), and four element types.",
  ["inputs"], "all sizes, indices and element values, every accessor and constructor, four element types",
  "Tests read a few elements of mostly square 2x2 or 3x3 objects through some of the accessors; a swapped dimension or an offset in one accessor shows only in rectangular objects or at other indices.",
  [DVEC, SVEC, DMAT, SMAT], [("index computation of the accessors", DMAT), ("fixed-size accessors", SMAT), ("constructors and factories", DVEC)],
  FLOW + "; for accessors the address that is returned", FLOW_NOTE + ". Fixed-size types are analysed for representative sizes; diag(vector) of complex elements is undecided",
  observe=["the designated element", "size(), shape()", "elements of the constructed object"])

P("C11", "Structured matrices map every position to its stored element or to zero",
  "Tri-diagonal, lower-triangular, Hermite (real elements), upper-triangular and Hessenberg matrices, dynamic or fixed-size, made from arrays of the documented packed layout, read at every "
  "position (i,j) the element that the layout assigns to it (the mirrored one in a Hermite matrix) and zero at every position outside of the stored structure; writable access outside the structure raises "
  "an exception, a write through an accessor is seen at exactly the positions that share the stored element, into_lower_mat keeps the lower triangle, the data accessors give the packed elements in order, and shape() is n x n.",
  ["inputs"], "all sizes, all positions, all element values; row-packed lower and column-packed upper layouts",
  "Tests look at matrices of size 3 to 5; packed index formulas that agree on small sizes or on one triangle, and positions far from the diagonal, are not settled by them.",
  [DMAT, SMAT], [("packed index maps of the triangular and Hermite types", DMAT), ("band access of the tri-diagonal types", DMAT), ("fixed-size forms", SMAT)],
  FLOW + "; floor division and the triangular numbers are handled exactly", FLOW_NOTE + ". Fixed-size types are analysed for representative sizes (1, 2, 3, 5, 6)",
  observe=["elements read at (i,j)", "exceptions of writable access", "packed data", "shape()"])

P("C13", "Upper-triangular and Hessenberg matrices infer their size and grow by whole columns",
  "An upper-triangular (Hessenberg) matrix made from packed data of l elements has the size n whose packed length is l, and a length that no size has is reported by an exception. "
  "extend_with_zero adds one column and row of zeros, extend_with adds the given column, whose length must fit or an exception is raised; all earlier elements keep their positions and values, "
  "also when growing from the empty matrix, and get_col gives the stored elements of a column.",
  ["inputs", "histories"], "all sizes below 2^28, all element values, growth steps from every size",
  "Tests grow one matrix from one small size; size inference by square roots and packed offsets fails first at particular lengths.",
  [DMAT], [("size inference from the packed length", DMAT), ("extend_with and extend_with_zero", DMAT), ("get_col", DMAT)],
  FLOW + "; integer square roots are handled by their defining bounds", "Discharged for all sizes except some obligations on Hessenberg growth and complex growth, which stay undecided (compared at instances of the formula only)",
  observe=["shape()", "elements after growth", "exceptions"])

P("C14", "A factorization or solve that fails is reported",
  "The Cholesky factorizations (packed and square, built-in and LAPACK) raise std::runtime_error in their constructor exactly when some pivot of the matrix is not positive, the modified Cholesky and the incomplete LU "
  "factorization exactly when a pivot they divide by is zero; when LAPACK reports a non-zero status for a factorization or for a solve (Cholesky or tri-diagonal), std::runtime_error is raised. "
  "In all other cases the constructor and the solve return normally.",
  ["inputs", "faults"], "all square matrices and right-hand sides (vectors and matrices) with comparable (non-NaN) pivots, all LAPACK status codes, float and double",
  "Tests factorize a few matrices for which everything succeeds, and LAPACK failures cannot be provoked from them.",
  [CH, CHI, TRI, ILU, GTSV, POTR], [("pivot tests of the built-in decompositions", CHI), ("status checks around LAPACK", CH), ("status check of gtsv", TRI), ("pivot tests of the incomplete LU", ILU)],
  FLOW + "; here the condition under which each exception leaves the call, with the LAPACK status as an unconstrained value", FLOW_NOTE,
  observe=["exceptions of constructors and solves"])

P("C15", "Cholesky solvers compute the factors and solutions of the textbook recurrences",
  "For a matrix that can be factorized, the lower triangle of the factor held by the packed and the square Cholesky factorization satisfies A = L*Lt (square roots positive), that of the modified Cholesky factorization holds L*D "
  "with A = L*inv(D)*(L)t, only the lower triangle of the argument being used, and solve_linear and solve_linear_mut give the solution by forward and backward substitution for vectors and for every column of a matrix, "
  "in a new object or in place (returning a reference to it), leaving a constant right-hand side as it was. With LAPACK the square form gives what potrf and potrs give for the same data.",
  ["inputs", "configurations"], "all sizes n >= 0 and numbers of right-hand sides, all element values, float and double, built-in and LAPACK",
  "Tests solve fixed 3x3 or 4x4 systems to a tolerance; index errors that show for larger sizes, several right-hand sides, or an unsymmetric upper triangle are not seen.",
  [CH, CHI, POTR], [("decomposition recurrences over packed or square storage", CHI), ("substitutions", CHI), ("LAPACK calls and their layout arguments", POTR), ("solver classes", CH)],
  FLOW + "; loops that carry state become recurrences that are compared with those of the textbook algorithm", FLOW_NOTE, observe=["elements of the factor", "elements of the solution", "the right-hand side"])

P("C16", "Tri-diagonal systems are solved for every size and any number of right-hand sides",
  "TriDiag::solve_linear of an n x n tri-diagonal matrix (dynamic or fixed-size) gives the solution of the elimination without pivoting (of gtsv with LAPACK) in the destination and returns a reference to it, for a "
  "vector and for every column of a matrix, for every n >= 1, also when the destination is the right-hand side; otherwise the right-hand side is unchanged.",
  ["inputs", "configurations"], "all n >= 1, all numbers of columns, all element values for which the pivots do not vanish, float and double, built-in and LAPACK",
  "Tests solve one system of size 4 or so; sizes 1 and 2, several columns and in-place solves take different paths.",
  [TRI, TDMA, GTSV], [("elimination and back substitution", TDMA), ("copies before LAPACK overwrites its arguments", TRI), ("layout arguments of gtsv", GTSV)],
  FLOW + "; loops that carry state become recurrences that are compared with those of the textbook algorithm", FLOW_NOTE + ". Fixed-size matrices are analysed for n = 2 and 5", observe=["elements of the destination", "the returned reference", "the right-hand side"])

P("C17", "A solver can be used again: solving changes neither the solver nor constant operands",
  "A second solve with one tri-diagonal, Cholesky, modified Cholesky or incomplete LU solver gives what a new solver for the same matrix gives, whatever the first right-hand side was and whether the first solve was in place "
  "or not, for a vector or a matrix; and the stored factor is the same before and after a solve.",
  ["inputs", "histories", "configurations"], "all matrices, all pairs of right-hand sides, all sizes, float and double, built-in and LAPACK",
  "Tests solve once per solver object; routines that overwrite their input (gtsv does) break only the next solve.",
  [TRI, CH, ILU, GTSV], [("copy of the diagonals before gtsv", TRI), ("factors passed to the substitutions", CH), ("const solve of the incomplete LU", ILU)],
  FLOW + " of two solves in a row, compared with one solve by a new solver", FLOW_NOTE, observe=["result of the second solve", "the stored factor"])

P("C21", "Coordinate matrices keep their entries sorted and consistent",
  "A SpCooMat made from values, row and column indices of distinct positions holds exactly these entries ordered by row and then by column, however the arguments were ordered and whether they were copied or moved from, "
  "and so do its copies, moves and assignments; nnz(), shape() (one more than the largest row and column index, 0 x 0 when empty), values(), row_indices() and col_indices() agree; at and the call operator give the entry "
  "at a position or zero, mut_at a reference to that entry or std::out_of_range; unit(n) is the n x n identity, and arrays of different lengths are reported by std::runtime_error.",
  ["inputs", "histories"], "all numbers of entries, all orders of distinct positions, all element values; float, double and std::complex<double>",
  "Tests build three matrices of a few entries; an entry that moves without its column, or a copy that misses an array, shows only for other orders and histories.",
  [SPM], [("_sort", SPM), ("SpCooMat::operator=", SPM), ("mut_at", SPM)],
  FLOW + "; std::vector and the standard algorithms enter as their specification", FLOW_NOTE + ". Matrices with repeated positions are out of scope",
  state=[("sorted triple", "the three arrays have equal length and their positions rise strictly", SPM)], observe=["values()", "row_indices()", "col_indices()", "nnz()", "shape()", "element access", "exceptions"])

P("C22", "Sums and differences of coordinate matrices merge equal positions",
  "For coordinate matrices with distinct positions, a += b, a + b and a - b give the matrix whose entries are those at the positions of either operand, sorted and each once, with the sum (difference) of the entries where "
  "both have one; also when both operands are the same matrix. Negation and scaling change the values only; operands that are not the destination stay as they were.",
  ["inputs"], "all pairs of patterns, all element values; float, double and std::complex<double>",
  "Tests add one pair of 3 x 3 patterns; the merge has a separate branch for each way two rows can interleave.",
  [SPM, SPO, MO], [("SpCooMat::operator+=", SPM), ("operator+ and operator-", SPO)],
  FLOW + "; std::vector and the standard algorithms enter as their specification",
  "Negation, scaling and the frame of every operation are proved for all patterns. The merge of two different patterns is beyond the normal forms: its extracted formula is compared with the definition's only on all small instances (up to six entries each) and listed as undecided",
  observe=["values()", "row_indices()", "col_indices()", "nnz()"])

P("C23", "Compressed sparse matrices hold exactly the entries they were made from",
  "A SpMat made from a coordinate matrix has the same entries row by row, row pointers that start at 0, never fall and end at nnz(), and shape (rows, columns); one made from three arrays, copied, moved or assigned holds the same arrays. "
  "at and the call operator give the entry at a position or zero, mut_at a reference to the first entry there or std::out_of_range; scaling, alpha*A and -A change the values only (a copy's for the operators), unit(n) is the identity, "
  "and values and column indices of different lengths are reported by std::runtime_error.",
  ["inputs", "histories"], "all patterns including empty rows, all element values; float, double and std::complex<double>",
  "Tests convert two small matrices; a wrong row pointer after an empty row needs a pattern they do not have.",
  [SPM, MO], [("_convert_coo_crs", SPM), ("SpMat::operator=", SPM), ("SpMat::mut_at", SPM)],
  FLOW + "; std::vector and the standard algorithms enter as their specification", FLOW_NOTE,
  state=[("row pointers", "row i occupies the entries row_ptr[i] up to row_ptr[i+1]", SPM)], observe=["values()", "row_ptr()", "col_indices()", "nnz()", "shape()", "element access", "exceptions"])

P("C25", "Back substitution and the incomplete LU factorization compute their definition",
  "DynUpperTriMat::back_sub solves U*x = y in place for vectors, spans and any random-access range of matching length and raises std::invalid_argument for any other length. The incomplete LU factorization of a dense matrix "
  "eliminates row by row without filling elements that are zero, and solve applies the forward substitution with unit diagonal and then the backward one, for every size.",
  ["inputs"], "all sizes, all element values and zero patterns; four element types for back_sub, float and double for the factorization",
  "Tests use sizes up to 4 with one zero pattern; a wrong bound or a missing term shows for larger sizes or other patterns.",
  [DMAT, ILU], [("back_sub", DMAT), ("in-place decomposition", ILU), ("solve", ILU)],
  FLOW + "; loops that carry state become recurrences that are compared with those of the textbook algorithm", FLOW_NOTE, observe=["elements of the solution", "elements of mat()", "exceptions"])

P("C26", "Gram-Schmidt orthogonalization subtracts the projections on all earlier vectors",
  "orth::cgs replaces, in order, vector j by itself minus, for every earlier (already replaced) vector k, (v_k . v_j) / (v_k . v_k) times v_k, where v_j is the vector before the replacement; the first vector is unchanged.",
  ["inputs"], "any number m >= 1 of vectors, all element values, float and double",
  "Tests orthogonalize one or two sets of three vectors to a tolerance, which the modified variant also passes.",
  [ORT], [("projection loop over a copy of the vector", ORT)],
  FLOW + "; loops that carry state become recurrences", FLOW_NOTE + ". Vectors of 1 and 3 elements (fixed size) stand for all lengths; the numerical orthogonality of the result is not claimed", observe=["elements of all vectors"])

P("C12", "References, views and storage: nothing returned or kept dangles and storage is released once",
  "A reference, pointer, span or iterator that an operation returns or that an object keeps designates storage of its operands that is still alive (never a local, a temporary or a released array). Every array an operation allocates ends up owned by exactly one object or is "
  "released exactly once, no array is used after it was released, and moves and assignments leave no storage shared between two objects. Iterators into a vector are not used after that vector grew, unless its capacity was reserved before.",
  ["inputs", "histories"], "all sizes, all positions, all operands of every operation; four element types, three backends",
  "A dangling reference usually still shows the old value, so tests that read it pass; leaks are invisible to them.",
  [V, DMAT, SMAT, SPM, TRI, ORT, CH], [("element access that returns references", DMAT), ("row views and spans", DMAT), ("hand-written copy and move operations", DMAT), ("in-place growth of coordinate lists", SPM)],
  "typestate analysis of allocations (live, released, absent) over the compiled IR, points-to analysis of returned and stored addresses, a stale-iterator typestate over the control-flow graph of every function, and the compilers' lifetime diagnostics",
  "About 4,500 operation/type/backend combinations. Paths on which an allocation throws are not followed. Coordinate matrices are decided by the points-to, iterator and diagnostic rules only; whether a reserved amount suffices is not decided",
  observe=["returned references and views", "allocations, releases and owners"])

P("C18", "Every access stays inside its object and reads only what was written",
  "For operands that meet the documented shape requirements, no element-wise operation, product, solver, element access with a valid index, conversion or growth operation of vectors, dense, structured and sparse matrices reads or writes outside "
  "the storage of its operands, results and working arrays, for any size including zero and one; BLAS and LAPACK get arrays that cover what their contract lets them touch and valid leading dimensions, and no element of a working array or result is read before it is written.",
  ["inputs", "configurations"], "all sizes, rectangular shapes, index contents and zero patterns; four element types (three for sparse construction), three backends",
  "Reading one element past an array usually changes nothing that a test can see, and the sizes where it happens (empty, one row, more rows than columns) are rarely tested.",
  [VC, MVC, MMC, DMAT, SPM, TDMA, CHI, ILU, ORT, GTSV, POTR],
  [("loops over raw pointers and computed offsets", VC), ("working arrays for overlapping operands", MVC), ("packed storage offsets", DMAT), ("recurrences over n - 1 off-diagonals", TDMA), ("row pointer loops", SPM)],
  "array-dataflow analysis of the compiled IR: every load, store, block copy and library call gets its offset as a formula of sizes and loop counters, shown inside the object by linear-integer and monotone bounds; definite-assignment analysis of new arrays",
  "About 3,200 operation/type/backend combinations, 98% shown for all sizes; the others (mostly merges of coordinate matrices) are evaluated at small sizes of the extracted formulas only. In coordinate and compressed matrices the obligations are the indices into their vectors. GMRES iterations are not covered",
  observe=["accesses to operands, results and working arrays", "arguments of BLAS and LAPACK calls"])

P("C24", "Copies, moves and assignments transfer the whole value and leave the source of a copy alone",
  "For vectors, dense, tri-diagonal, packed triangular, Hermitian and Hessenberg matrices (dynamic and fixed size): a copy, a moved-to object, the target of an assignment (also to itself, in a chain, and over an object of another size) "
  "and swapped objects have every element and the shape of the source; the source of a copy keeps its elements, and changing either object afterwards does not show in the other.",
  ["inputs", "histories"], "all sizes of source and previous target, all element values, four element types",
  "Tests copy a few small objects and rarely look at the shape, the source or a target of another size afterwards.",
  [DVEC, SVEC, DMAT, SMAT], [("defaulted copy operations", DVEC), ("shape kept next to the elements", DMAT), ("array members of fixed-size matrices", SMAT)],
  FLOW, FLOW_NOTE + ". HessenbergMat and DynUpperTriMat cannot be assigned and are copied and moved only. Coordinate and compressed matrices are covered by C21 and C23",
  observe=["elements and shapes of source and target"])

P("C27", "Empty objects are valid: they have size zero and every operation that accepts them gives the empty result",
  "Default-constructed vectors, upper triangular and sparse matrices, objects made from empty arrays and matrices with only a capacity have size or shape zero and no elements. Norm and dot products of empty vectors are zero, products over an empty inner dimension "
  "are zero, sums, scalings, conversions and products of empty sparse matrices are empty, adding an empty coordinate matrix on either side changes nothing, reading one gives zero and writing one raises out_of_range. An empty upper triangular or Hessenberg matrix grows "
  "to one column with exactly the elements given (wrong counts raise invalid_argument).",
  ["inputs", "histories"], "all ways to make an empty object, then one or two operations; four element types (three for sparse matrices)",
  "Tests hardly ever use empty objects; an uninitialised size or an index of size - 1 shows only there.",
  [DVEC, VC, DMAT, SPM, MM, MV], [("default member initialisers", DMAT), ("growth from size zero", DMAT), ("shape of a matrix without entries", SPM), ("loops and BLAS calls with zero dimensions", VC)],
  FLOW, FLOW_NOTE + ". Merging an empty coordinate matrix is compared at small instances of the extracted formulas only", observe=["shapes, sizes and elements", "exceptions"])

P("C28", "Assertions hold for every valid call and stop every call whose shapes do not fit",
  "In programs compiled with assertions: an operation whose operands have fitting shapes never fails an assertion and gives the same results as without; element-wise sums of matrices, matrix-vector and matrix-matrix products (dense, and compressed rows), cross products, "
  "tri-diagonal and Cholesky solves end in a failed assertion or an exception exactly when the shapes of their operands (including the destination) do not fit, before anything is written.",
  ["inputs", "configurations"], "all sizes of all operands, related or not; four element types, two backends",
  "A failing assertion ends the test program, so tests cannot contain mismatching calls, and an assertion that is too strict or compares the wrong sizes shows only for shapes that were not tried.",
  [MV, MM, V, TRI, CH], [("assertions on shapes", MM), ("assertions on shapes", MV), ("assertions on sizes", V), ("assertions of the solvers", CH)],
  FLOW + "; a failing assertion is an outcome of its own", FLOW_NOTE, observe=["outcome: normal return, failed assertion or exception", "results"])

P("C19", "Every documented operation compiles for every supported element type",
  "Every public operation of vectors, dense and sparse matrices compiles for float, double and both complex types, and every solver for float and double, "
  "with each backend, with and without assertions, under gcc and clang. ",
  ["programs", "configurations"], "all public operations x element types x backends x assertion modes x compilers",
  "The tests instantiate most templates for double only, and a template that is never instantiated is never checked.",
  [V, VC, DMAT, SMAT, SPM, MV, MM, GM, ILU, TRI, CH], [("templates constrained by element type", TT), ("BLAS overloads per element type", VC)],
  "compile-time witnesses: programs that use every public operation type-check only if the property holds",
  "Complete for the operations listed in the witness programs")

P("C20", "Every header compiles on its own and can be included in several units",
  "Each public header compiles when it is the only include of a translation unit, with each backend, and a program may include any headers in any number of "
  "translation units without duplicate or unresolved definitions of the library. Every function a public header declares for users has a definition.",
  ["programs", "configurations"], "all headers, all backends, all sets of translation units",
  "Each test file includes several headers in one fixed order and each test program is one translation unit.",
  [V, VC, DMAT, SMAT, SPM, MV, MM, GM, ILU, TRI, CH, ERR], [("include lists", V), ("inline functions and templates", VC)],
  "header self-containment compiles, linkage classes of every definition in the IR, and a search of the syntax tree for declarations that are defined nowhere", "Every header in every backend; every strong external definition is reported")

NA("C29", "GMRES returns a solution of the requested accuracy",
   "For a non-singular matrix whose incomplete factorization exists, the vector that the GMRES solver returns satisfies the preconditioned system to the requested tolerance "
   "relative to the arithmetic's precision, within as many steps as there are unknowns.",
   ["inputs"], "all matrices, right-hand sides and tolerances",
   "The tests solve three small systems.",
   [GM, ILU], [("Arnoldi process and Givens rotations", GM), ("preconditioning", ILU)],
   "The claim is about the outcome of an iteration whose number of steps, basis and stopping test depend on rounded floating-point values; the Krylov loop grows containers by data-dependent counts, "
   "so no closed formula of the result exists for a symbolic size, and a bound on the residual needs the conditioning of the basis at run time. Memory safety, reuse, ownership, error paths, element types and shape "
   "assertions of the same code are decided under C07, C09, C12, C17, C18, C19 and C28.")

NA("C30", "Results are accurate to a few units in the last place and agree across backends",
   "The built-in backend and the BLAS and LAPACK backends give results that agree up to the rounding error bounds of their operations, also for operands of very large, very small or mixed magnitude.",
   ["inputs", "configurations"], "all operand values, all backends",
   "The tests compare with a fixed tolerance for a few well-scaled operands.",
   [VC, MVC, MMC, CHI, TDMA], [("kernels of the built-in backend", VC), ("calls of BLAS", MMC)],
   "Rounding errors depend on the values and on the summation order inside the external BLAS and LAPACK binaries, whose source is not part of the repository; the analysis here treats arithmetic as exact, and an error-bound "
   "analysis of symbolic-length sums with unbounded operands gives no useful bound.")
