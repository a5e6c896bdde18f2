import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=mech,hook_needed=hook))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=state
    P.append(d)
m=lambda n,w: dict(name=n,where=w)
ALL=["src/triangular.rs","src/cholesky.rs","src/qr.rs","src/givens.rs","src/householder.rs","src/reflection.rs","src/tridiagonal.rs","src/bidiagonal.rs","src/eigh.rs","src/svd.rs","src/lobpcg/algorithm.rs","src/lobpcg/eig.rs","src/lobpcg/svd.rs","src/index.rs"]
p("C01","Element access never leaves the arrays involved",
 "Whatever the shapes of its arguments (empty, one row or column, non-square, mismatched with each other), no safe public operation reads or writes an element outside the arrays it was given or allocated. This must hold in builds without debug assertions, where element accesses are not checked at run time.",
 ["inputs","configurations"],"every shape of every matrix argument, every triangle/flag argument, debug and release builds",
 "The tests run with debug assertions (checked access) on shapes 1..10; the unchecked release access is never exercised, and no finite set of shapes covers all of them.",
 ["src/index.rs"]+ALL[:-1],[m("unchecked accessors, bounds must follow from the callers' shape checks and loop bounds","src/index.rs: at, atm"),m("square / row-count guards before unchecked loops","src/lib.rs: check_square; src/triangular.rs; src/givens.rs")],["every unchecked access reachable from the public API"])
p("C02","No argument shape makes an operation panic",
 "For every combination of argument shapes, each public decomposition, solve, inverse, triangular, norm and truncated-solver operation returns a value or an error instead of panicking on an index, slice, dimension mismatch, absent value or integer overflow. Excepted are the documented panics (sorting of foreign-shaped inputs or NaN, a zero iterator step) and mismatched shapes of caller-supplied reflection axes, operators, preconditioners and constraints.",
 ["inputs"],"all row and column counts of every array argument, including 0 and 1, and all flag values",
 "Tests use dimensions 1..10 plus a few hand-picked empty cases; shape-dependent panics hide in boundary shapes of individual entry points and in rarely taken deflation branches.",
 ALL[:-1],[m("guards, loop bounds and slice bounds computed from dims","all decomposition functions"),m("unwraps whose success depends on shapes","src/qr.rs into_r, src/tridiagonal.rs into_tridiag_matrix, src/svd.rs rotations")],["panic-capable operations reachable from the public API"])
p("C03","Ill-shaped arguments are rejected with the exact error",
 "An operation that requires a square matrix, rows >= columns, a non-empty matrix, or a matching number of right-hand-side rows fails exactly when that requirement is violated, and with the error of that kind, carrying the true dimensions (expected and actual not swapped). Well-shaped arguments are never rejected for their shape.",
 ["inputs"],"all shapes of every argument of every fallible public operation",
 "Tests check one wrong shape per operation; which side of each inequality is rejected and what the payload holds for other shapes is not sampled.",
 ["src/lib.rs","src/triangular.rs","src/cholesky.rs","src/qr.rs","src/tridiagonal.rs","src/bidiagonal.rs","src/eigh.rs","src/svd.rs","src/lobpcg/algorithm.rs"],
 [m("shape guards at the head of each operation","check_square and the explicit comparisons"),m("error mapping","src/givens.rs rotate_cols")],["Err values returned by public operations"])
p("C04","Results have the documented shapes and parts",
 "For every R x C input with K = min(R, C): thin QR yields Q R x C and R C x C; bidiagonalisation yields U R x K, B K x K, Vt K x C; SVD yields U R x K, K singular values, Vt K x C, with U and Vt present exactly when requested; eigendecomposition yields N values and N x N vectors; Cholesky, inverse, triangular and solve results have the shape the equation implies. Diagonal outputs have lengths N and N-1.",
 ["inputs"],"all input shapes for which the operation succeeds, all combinations of the requested-parts flags",
 "Shapes are checked on a few examples; the tall, wide, square, one-column and empty cases of every operation form an unbounded family.",
 ["src/qr.rs","src/bidiagonal.rs","src/tridiagonal.rs","src/householder.rs","src/svd.rs","src/eigh.rs","src/cholesky.rs","src/triangular.rs"],
 [m("allocation sizes and slices of the result arrays","assemble_q, into_b, into_r, generate_u, generate_vt, svd, symmetric_eig")],["shape of every returned array, presence of optional parts"])
p("C05","Only the designated triangle of a matrix matters",
 "The Cholesky family (factor, solve, inverse) depends only on the lower triangle and diagonal of its matrix, and the variants that skip cleaning leave the strict upper triangle exactly as it was. A triangular solve depends only on the designated triangle and diagonal of its coefficient matrix, never modifies that matrix, and the same holds for the triangular solves inside QR-based solving, whose matrix stores other data in the opposite triangle.",
 ["inputs"],"all matrices, including non-symmetric ones and ones with arbitrary data in the other triangle, both triangle designations",
 "All test matrices are exactly symmetric or exactly triangular, so reading the mirrored element gives the same answer and no test can see it.",
 ["src/cholesky.rs","src/triangular.rs","src/qr.rs"],[m("index pattern of the factorization loops","src/cholesky.rs cholesky_inplace_dirty"),m("row slices used for elimination","src/triangular.rs solve_triangular_system")],["set of element positions read and written"])
p("C06","Triangular extraction and test cover exactly the complement",
 "Converting a square matrix to upper (lower) triangular sets every element strictly below (above) the diagonal to zero and changes nothing else; the triangularity test is true exactly when all those elements are zero. A cleaned Cholesky factor has an all-zero strict upper triangle.",
 ["inputs"],"every square size, both triangle designations, every element position",
 "Tests look at sizes up to 10 and mostly at the product of factors; an element missed only for some sizes or positions survives.",
 ["src/triangular.rs","src/cholesky.rs"],[m("nested index loops","src/triangular.rs triangular_inplace, is_triangular"),m("clean-up call after factorization","src/cholesky.rs cholesky_inplace")],["matrix contents after the call, boolean result"])
p("C07","A call rejected for its arguments leaves the right-hand side intact",
 "When an in-place triangular or positive-definite solve, or a plane rotation, returns an error, the right-hand-side operand it was asked to overwrite still holds its original contents. Likewise an in-place triangular extraction or factorization that is rejected because the matrix is not square has not modified it.",
 ["inputs","fault_sequences"],"all ill-shaped or non-positive-definite arguments of the in-place operations",
 "Tests only look at the error value, never at the operand after a failed call.",
 ["src/triangular.rs","src/cholesky.rs","src/givens.rs"],[m("guards precede the first write","solve_triangular_system_common, cholesky_inplace_dirty, solvec_inplace, rotate_rows")],["operand contents after an Err return"])
p("C08","Rotations and reflections are exact orthogonal maps",
 "Reflecting columns (rows) maps each column (row) x to x - 2 (axis.x - bias) axis, for every column (row) and nothing else, so with a unit axis it is an involution. The plane rotations used by the iterative decompositions are, in exact arithmetic, rotations: they preserve norms, cancel the component they are built to cancel, return the norm of the pair, and their inverse undoes them; the Householder axis built from a non-zero column is a unit vector that sends the column to minus its signed norm times the first basis vector.",
 ["inputs"],"all real vectors, axes, biases and rotation angles, both signs and zero components",
 "Tests evaluate a handful of concrete angles and vectors; the identities must hold for every value including sign combinations.",
 ["src/reflection.rs","src/givens.rs","src/householder.rs"],[m("closed-form kernels","cancel_y, cancel_x, inverse, rotate_rows, rotate_cols, reflect_cols, reflect_rows, reflection_axis_mut")],["algebraic relation between inputs and outputs of the kernels"])
p("C09","Factorization and substitution follow their defining equations",
 "For positive definite A the Cholesky factor satisfies, entry by entry, the equations of L * Lt = A, and factorization reports non-positive-definiteness exactly when a pivot is not strictly positive (NaN included). Triangular substitution solves a x = b row by row in dependency order with the designated triangle and the true diagonal, for every right-hand-side column.",
 ["inputs"],"all sizes, all real entries, any number of right-hand-side columns, both triangles",
 "Numerical tests compare products to a tolerance on random matrices up to 10 x 10; definiteness is sampled with three matrices and never with NaN.",
 ["src/cholesky.rs","src/triangular.rs"],[m("Cholesky-Banachiewicz recurrence and pivot test","cholesky_inplace_dirty"),m("column-oriented substitution","solve_triangular_system_common")],["equations relating stored entries, order of elimination"])
p("C10","Solves, inverses and least squares compose their factors correctly",
 "In exact arithmetic, given correct factorizations and substitutions, the positive-definite solve and inverse return the solution of A x = b and the inverse of A; the QR-based solve, transposed solve and inverse return the least-squares solution, the minimum-norm solution of the transposed system and the inverse; least squares picks the formula matching the matrix orientation. A QR system whose triangular factor has a zero diagonal entry is reported as non-invertible by every solving operation.",
 ["inputs"],"all coefficient matrices and right-hand sides of matching shape, tall, square and wide",
 "Tests solve consistent random systems to a tolerance; an incorrect composition can agree on such systems (symmetric, orthonormal or consistent data) and differ elsewhere.",
 ["src/cholesky.rs","src/qr.rs"],[m("composition of factor solves","solvec_inplace, invc_inplace, solve_into, solve_tr_into, inverse, least_squares_into"),m("invertibility guard","is_invertible")],["matrix-algebra relation between result and arguments"])
p("C11","Householder factor pairs reproduce the matrix with consistent signs",
 "QR, bidiagonal and symmetric tridiagonal decompositions report non-negative diagonals (QR, bidiagonal) or off-diagonals (tridiagonal, bidiagonal) and generate orthogonal factors whose signs match them, so the product of the factors is the original matrix for every sign pattern, including zero columns. The same stored values drive the compact form and every factor generated from it.",
 ["inputs"],"all matrices including ones with zero columns, negative leading entries, wide and tall orientation",
 "Random tests rarely contain exact zero columns or degenerate blocks, and cannot cover every sign pattern and size.",
 ["src/qr.rs","src/householder.rs","src/bidiagonal.rs","src/tridiagonal.rs"],[m("sign conventions shared between elimination and assembly","clear_column, assemble_q, qt_mul, into_r, into_diagonals, into_b, into_tridiag_matrix")],["relation of compact form, diagonals and generated factors"])
p("C12","Symmetric eigen-iteration keeps values and vectors in lockstep",
 "Every step of the symmetric eigensolver that changes the tridiagonal values is an orthogonal similarity, and exactly the same rotation is applied to the eigenvector matrix when vectors are requested, so Q T Qt is preserved by every step; requesting vectors never changes the values. The input scaling applied before the iteration is undone on every successful return, and the closed-form 2 x 2 step returns the two eigenvalues of the block.",
 ["inputs","histories"],"every sequence of iteration steps taken for any symmetric matrix, with and without vectors",
 "Which steps (deflation, shifts, 2 x 2 finish) occur depends on the data; tests check only final residuals of random matrices to 1e-5.",
 ["src/eigh.rs"],[m("implicit QR sweep and 2x2 finish","symmetric_eig"),m("deflation","delimit_subproblem"),m("closed forms","wilkinson_shift, compute_2x2_eigvals")],["updates of diagonal, off-diagonal and vectors per step"])
p("C13","SVD steps keep both factors and the values in lockstep",
 "Every step of the singular value iteration (sweep, zero-diagonal deflation, 2 x 2 finish, sign correction) changes the bidiagonal values and the left and right factors by the same rotations or sign changes, for both tall and wide orientation, so U S Vt is preserved by every step. Requesting or omitting factors never changes the singular values, singular values are returned non-negative, and the input scaling is undone on every successful return.",
 ["inputs","histories"],"every sequence of iteration steps taken for any matrix, both orientations, all flag combinations",
 "The deflation and sign-correction branches are almost never reached by random full-rank matrices, which is all the tests contain.",
 ["src/svd.rs"],[m("sweep and finish","svd"),m("zero-diagonal deflation","delimit_subproblem, cancel_horizontal_off_diagonal_elt, cancel_vertical_off_diagonal_elt"),m("2x2 closed form","compute_2x2_uptrig_svd")],["updates of diagonal, off-diagonal, U and Vt per step"])
p("C14","Sorting permutes values and vectors together in the requested order",
 "Sorting a decomposition ascending (descending) returns the values in non-decreasing (non-increasing) order, and applies one and the same permutation to the values, to the eigenvector or left-vector columns and to the right-vector rows. Nothing is dropped or duplicated, and absent factors stay absent.",
 ["inputs"],"all values (ties included), all sizes, both orders, all sorting operations",
 "Tests sort a few random results; ties, single elements and absent factors combined with each order are not covered.",
 ["src/eigh.rs","src/svd.rs","src/lobpcg/svd.rs"],[m("sort by value with carried index, then gather","EigSort::sort_eig, SvdSort::sort_svd, singular_values_with_indices")],["comparator direction, source of each output position"])
p("C15","By-value, by-reference and in-place variants agree exactly",
 "The consuming, borrowing, in-place and values-only variants of one operation run the same algorithm with the same tolerance, triangle and flags on the same data, so they return identical results. The borrowing variants compute on a copy.",
 ["inputs"],"all inputs and all sibling entry points of each operation family",
 "Tests compare variants to tolerances of 1e-5..1e-9 on a few inputs; a variant with a different tolerance or flag order differs only on special data.",
 ["src/eigh.rs","src/svd.rs","src/cholesky.rs","src/qr.rs","src/triangular.rs"],[m("thin delegating wrappers","eigh/eigh_into/eigvalsh/eigvalsh_into, svd/svd_into, cholesky*, solvec*, invc*, qr/qr_into, solve*, least_squares*, solve_triangular*")],["core routine and arguments each variant reduces to"])
p("C16","The iterative eigensolver always reports its best consistent iterate",
 "Once the block eigensolver has started iterating, every way out of it - convergence, iteration limit or a failed inner factorization - returns the best iterate seen so far, with eigenvalues, vectors and residual norms taken from one and the same iteration; an inner failure is returned as an error together with that iterate, and only failures before the first iteration return no iterate. The iteration count never exceeds the configured maximum.",
 ["inputs","histories","fault_sequences"],"every sequence of iterations and every inner failure point",
 "Tests only run well-conditioned problems that converge; the failure exits are never taken.",
 ["src/lobpcg/algorithm.rs"],[m("best-result tracking and loop exits","lobpcg"),m("iteration counter","lobpcg")],["value returned on every exit"])
p("C17","Block eigensolver algebra: constraints, images and bases stay consistent",
 "In exact arithmetic, the block eigensolver orthonormalises correctly, keeps every iterate orthogonal to the column space of the constraint matrix for any full-rank constraints (orthonormal or not), and keeps the stored operator images equal to the operator applied to the stored vectors, so residuals are true residuals. The reduced eigenproblem it solves is the projection of the operator on the span it then recombines.",
 ["inputs","histories"],"all operators, initial blocks, full-rank constraints and iteration sequences",
 "The only constrained test uses orthonormal unit-vector constraints, on which a wrong projection is invisible.",
 ["src/lobpcg/algorithm.rs"],[m("projection","apply_constraints"),m("orthonormalisation","orthonormalize"),m("image updates and Gram blocks","lobpcg"),m("generalised eigenproblem","generalized_eig")],["matrix-algebra relation of the quantities carried between iterations"])
p("C18","Truncated solvers honour every setting and the iterator its bookkeeping",
 "Problem, order, precision, iteration limit, constraints, preconditioner and random generator configured on a truncated solver all reach the underlying solver unchanged, on every code path. The iterator yields blocks of at most the step size, adds every yielded vector to the constraints of later steps while keeping earlier ones, never yields more pairs than the problem size, and ends at the first unconverged or failed step; requesting zero pairs yields an empty result whose accessors work.",
 ["configurations","histories"],"all combinations of settings, all step sizes and numbers of steps",
 "Tests configure precision and iteration limit only; preconditioned, constrained and multi-step configurations are not tested.",
 ["src/lobpcg/eig.rs","src/lobpcg/svd.rs"],[m("builder methods and the call of the solver","TruncatedEig::decompose, TruncatedSvd::decompose"),m("iterator state","TruncatedEigIterator::next"),m("conversion to singular triplets","TruncatedSvdResult::values_vectors")],["arguments of the solver call, state after each step"])
p("C19","Results are a deterministic function of the arguments",
 "No operation depends on anything but its arguments and the explicitly supplied random generator: no global or thread-local state, ambient randomness, time, environment, thread scheduling, hash-order or address, and no input/output is performed. Repeating a call with the same arguments and generator state gives the same result.",
 ["inputs","schedules","histories"],"all operations, any number of repetitions and threads",
 "A test can repeat a call a few times but cannot show the absence of hidden state on every path.",
 ["src"],[m("absence of effects in the call graph","whole crate")],["callees reachable from the public API"])
p("C20","Tolerances are relative: results scale with the matrix",
 "Multiplying the matrix by a positive factor multiplies its singular values, eigenvalues and R factor by that factor, its Cholesky factor by the square root, its inverse and the solution by the reciprocal, and leaves orthogonal factors unchanged in exact arithmetic. No singularity, definiteness or deflation decision compares a quantity that carries the scale of the data with a fixed absolute threshold.",
 ["inputs"],"all matrices and all positive scale factors",
 "One test checks one tiny scale for one operation; other operations and decisions are only tested with entries around 1..100.",
 ["src/cholesky.rs","src/triangular.rs","src/qr.rs","src/householder.rs","src/givens.rs","src/eigh.rs","src/svd.rs","src/tridiagonal.rs","src/bidiagonal.rs"],[m("normalisation by the largest entry and rescaling","symmetric_eig, svd"),m("zero tests instead of thresholds","is_invertible, pivot test")],["degree of homogeneity of every compared and returned quantity"])
p("C21","Computation is carried out in the element type",
 "Every operation on double-precision data is carried out in double precision, and on single-precision data in single precision: matrix data is never converted through another numeric type, and the tolerances of the direct decompositions derive from the element type's own epsilon.",
 ["inputs","configurations"],"all element types and all data paths",
 "Tests of 1e-5..1e-7 tolerance on double data do not reveal a partial loss of precision, and only three tests use single precision.",
 ["src"],[m("generic arithmetic, constants lifted into the element type","whole crate"),m("epsilon-derived tolerance","eigh_into, eigvalsh_into, svd, svd_into")],["numeric conversions applied to data"])
p("C22","Vector norms are the textbook norms over all elements",
 "For an array of any shape, the L1 norm is the sum of absolute values, the L2 norm the square root of the sum of squares and the max norm the largest absolute value, each over every element exactly once; empty arrays have norm zero.",
 ["inputs"],"all arrays of any dimension and size, any signs",
 "One 2x2 example is tested.",
 ["src/norm.rs"],[m("folds over all elements","norm_l1, norm_l2, norm_max")],["per-element map and reduction"])
p("C23","Memory layout never changes a result",
 "Row-major, column-major, reversed, strided and sub-view inputs with equal elements give the same results from every operation; no operation except the documented values-only sort requires a particular memory layout.",
 ["inputs","configurations"],"all layouts of all array arguments",
 "Tests apply a few inversions and transpositions to some inputs, not to right-hand sides or every operation.",
 ["src"],[m("only logical-index array operations are used","whole crate")],["array operations whose outcome depends on layout"])
p("C30","Decompositions are numerically accurate",
 "Reconstructed products, orthogonality and residuals are within a small multiple of the unit roundoff times the norm of the input for every finite input.",
 ["inputs"],"all finite matrices",
 "Random tests sample 1000 well-scaled matrices per operation; cancellation and underflow cases are not sampled.",
 ["src"],[m("choice of numerically stable formulas","svd, eigh, qr, cholesky")],["residual norms"])
p("C31","Iterative decompositions terminate on every input",
 "The symmetric eigensolver and the SVD finish in finitely many steps for every input matrix.",
 ["inputs"],"all matrices, including non-finite entries",
 "Termination depends on convergence of shifted QR in floating point, which no test settles.",
 ["src/eigh.rs","src/svd.rs"],[m("deflation criterion","delimit_subproblem")],["loop exit"])
p("C32","Truncated solvers converge to the extreme pairs",
 "With enough iterations the truncated solvers return the requested number of largest or smallest eigen- or singular pairs of the problem to the requested precision.",
 ["inputs"],"all symmetric problems, all sizes and requested counts",
 "Convergence depends on the spectrum and the random start.",
 ["src/lobpcg"],[m("locally optimal block iteration","lobpcg")],["returned eigenvalues"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
