#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mechanism}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ lab
prop("C01", "Vector and element-wise matrix operations match their definitions",
     "For real and complex vectors and matrices of every size (including empty, very small and large ones) the sum, difference, linear combination, "
     "scaled copy, update, scaling, inner product, norm, scaled-error (root-mean-square or maximum) and comparison operations return exactly the elements or number "
     "their formulas define, up to floating-point rounding. Operands that are inputs are never modified, and operands with incompatible dimensions give an error (or the documented panic), never a partial or wrong result.",
     ["inputs"], "all vector lengths from 0 to several hundred, all small and medium matrix shapes, real and complex data including zeros, denormals and huge values, all scalar multipliers",
     "The unit tests check a handful of fixed lengths with hand-written numbers; the code switches between hand-unrolled loops, chunked loops and BLAS calls by length, so an error at one length or one remainder class is invisible to them.",
     ["russell_lab/src/vector/", "russell_lab/src/matrix/mat_add.rs", "russell_lab/src/matrix/mat_norm.rs", "russell_lab/src/matrix/mat_update.rs", "russell_lab/src/small/"],
     "Unrolled and chunked native loops plus BLAS level-1 calls selected by length")
prop("C02", "Dense matrix products match their index definitions",
     "Matrix-matrix, transposed-matrix, matrix-vector, vector-matrix, outer (dyadic) and rank-k (symmetric and Hermitian) products, their scaled accumulating variants, and the conversion to band storage give, "
     "for real and complex operands of every compatible shape, the result of the textbook index formula up to rounding, and touch only the entries they document. Incompatible shapes give an error and leave nothing half-computed.",
     ["inputs"], "all shapes (square, wide, tall, single row or column, empty), all real and complex coefficients and accumulation factors, both triangles",
     "Unit tests use a few fixed matrices; they do not cover all shape combinations, accumulation factors, or the untouched triangle.",
     ["russell_lab/src/matrix/mat_mat_mul.rs", "russell_lab/src/matrix/mat_sym_rank_op.rs", "russell_lab/src/matvec/", "russell_lab/src/small/"],
     "BLAS level-2/3 wrappers with column-major leading dimensions, transposition flags and native small-size paths")
prop("C03", "Dense solves, inverses and factorizations satisfy their equations",
     "Dense linear solves, inverses, determinants, pseudo-inverses and Cholesky factorizations (real and complex, dynamic and fixed-capacity variants) return results whose defining equations hold to a residual proportional to machine precision times the conditioning of the input. "
     "Exactly singular or non-positive-definite inputs give an error instead of a wrong answer, and entries documented as untouched stay as they were.",
     ["inputs"], "all well-conditioned, graded, permuted, nearly and exactly singular matrices of sizes 0 to about 30, any number of right-hand sides, rectangular inputs for the pseudo-inverse",
     "Unit tests fix a few matrices per routine; the quantifier over all matrices, pivoting patterns and sizes (analytic formulas up to 3, elimination or LAPACK above) is not reached.",
     ["russell_lab/src/matrix/mat_inverse.rs", "russell_lab/src/matrix/mat_pseudo_inverse.rs", "russell_lab/src/matrix/mat_cholesky.rs", "russell_lab/src/matvec/solve_lin_sys.rs", "russell_lab/src/small/"],
     "Closed-form inverse for small sizes, LAPACK getrf/getri/gesv/potrf/gesvd wrappers, Gauss-Jordan with pivoting")
prop("C04", "Eigenvalue and singular-value decompositions reconstruct the matrix",
     "Every eigenvalue/eigenvector routine (general, symmetric, Hermitian, generalized, Jacobi-rotation, left and right vectors, eigenvalues only) returns pairs that satisfy the defining eigen-equation, with real spectra sorted and orthonormal vectors where documented; "
     "the singular value decomposition returns orthonormal factors and non-negative descending values that reproduce the input. All routines agree with each other on the spectrum of the same matrix.",
     ["inputs"], "all real and complex square or rectangular matrices up to about 12x12 including repeated eigenvalues, complex-conjugate pairs, defective, diagonal and zero matrices, both triangles",
     "Unit tests check a few fixed matrices; the unpacking of complex-conjugate pairs and the choice of triangle depend on data the tests do not vary.",
     ["russell_lab/src/matrix/mat_eigen.rs", "russell_lab/src/matrix/mat_eigen_sym.rs", "russell_lab/src/matrix/mat_eigen_sym_jacobi.rs", "russell_lab/src/matrix/mat_gen_eigen.rs", "russell_lab/src/matrix/mat_svd.rs", "russell_lab/src/matrix/complex_mat_eigen.rs"],
     "LAPACK geev/ggev/syev/heev/gesvd wrappers plus unpacking of packed eigenvectors; cyclic Jacobi rotations")
prop("C05", "Special functions agree with independent references over their domains",
     "The error function family and inverses, gamma, log-gamma, beta and log-beta, Bessel functions of all kinds and integer orders, and incomplete and complete elliptic integrals agree with independently computed reference values to close to double precision over their whole real domains, "
     "and return the documented results at poles, zeros, infinities and NaN.",
     ["inputs"], "all real arguments (log-uniform magnitudes from tiny to overflow, branch boundaries, integers, half-integers, special values) and all integer orders in range",
     "Tables in the unit tests contain tens of points per function; each function is piecewise with many coefficient sets, so an error in one branch or coefficient can sit between the tabulated points.",
     ["russell_lab/src/math/erf.rs", "russell_lab/src/math/erf_inv.rs", "russell_lab/src/math/gamma.rs", "russell_lab/src/math/ln_gamma.rs", "russell_lab/src/math/beta.rs", "russell_lab/src/math/bessel_0.rs", "russell_lab/src/math/elliptic.rs"],
     "Piecewise rational and asymptotic approximations with tabulated coefficients, recurrences in the order")
prop("C06", "Orthogonal polynomials, point sets and elementary functions are right",
     "Chebyshev and Legendre polynomials and their derivatives, Gauss and Gauss-Lobatto points and weights, and the elementary helper functions (ramps, steps, logistic and smooth-ramp functions with derivatives, super-quadric functions, powers of the imaginary unit, float decomposition, sign, modulo, factorials) equal their mathematical definitions. "
     "Point sets are ordered, symmetric and inside the interval, and Legendre rules integrate every polynomial up to their nominal degree exactly.",
     ["inputs"], "all degrees up to about 100 (points up to a few hundred) and all real arguments including end points, negative, zero, huge and special values",
     "Unit tests check selected degrees and arguments against tables.",
     ["russell_lab/src/math/chebyshev.rs", "russell_lab/src/math/legendre.rs", "russell_lab/src/math/functions.rs", "russell_lab/src/math/composition.rs"],
     "Closed forms and three-term recurrences with special handling at end points; Newton iteration for the points")
prop("C07", "Polynomial interpolants are exact for polynomials and nodes",
     "The Lagrange (barycentric) and Chebyshev-series interpolants reproduce their data at the nodes and reproduce every polynomial up to their degree at every point of the range, as do their first and second derivatives and differentiation matrices. "
     "Adaptive construction stops at the first degree whose next two series coefficients are below the requested tolerance or reports an error, and reported error estimates equal the largest error over the documented stations.",
     ["inputs", "configurations"], "all degrees, grid families, node-weight options, intervals, polynomial and smooth data, and evaluation points including nodes, end points and points next to nodes",
     "Unit tests use fixed functions and degrees.",
     ["russell_lab/src/algo/interp_lagrange.rs", "russell_lab/src/algo/interp_chebyshev.rs"],
     "Barycentric formulas with special handling at nodes; Clenshaw recurrence; trigonometric coefficient sums; differentiation matrices")
prop("C08", "B-spline bases and curves satisfy the spline identities",
     "For any valid degree and knot sequence the basis functions are non-negative, sum to one and equal the recursive definition, their derivatives equal those of the recursive definition, and the curve and its derivatives computed by any of the available methods coincide with the control-point combination. "
     "Too few knots, parameters outside the knot range, too high derivative orders and wrong numbers of control points are rejected with an error.",
     ["inputs", "histories"], "all degrees up to about 6, knot vectors with and without repeated interior knots, parameters including knots and end points, control points of any dimension, any sequence of calls on one object",
     "Unit tests check a few fixed splines with tabulated values.",
     ["russell_lab/src/algo/bspline.rs"],
     "Cox-de Boor triangular table, span search, derivative tables and cached results in one mutable object",
     state=[{"name": "cached basis/derivative tables", "meaning": "values of the last evaluation, reused by the getters"}])
prop("C09", "Quadrature, root, minimum and Newton solvers meet their tolerances",
     "On functions that satisfy their documented preconditions, numerical quadrature, bracketed root finding, polynomial root finding, cubic solving, bracketing, line minimization, line search, multidimensional Newton iteration, numerical derivatives (and the assertions built on them) and Jacobians, and linear fitting return results that satisfy their defining equation within the requested tolerance, lie inside the given range, and report evaluation counts that match the calls made. "
     "When the precondition fails or convergence is not achieved they return an error rather than a wrong value.",
     ["inputs", "configurations"], "generated families of functions with known integrals, roots, minimizers and derivatives, all bracket orientations and tolerances",
     "Unit tests use fixed textbook functions; they do not vary the position of roots, kinks, brackets, or tolerances.",
     ["russell_lab/src/algo/quadrature.rs", "russell_lab/src/algo/root_finder.rs", "russell_lab/src/algo/min_solver.rs", "russell_lab/src/algo/min_bracketing.rs", "russell_lab/src/algo/newton_solver.rs", "russell_lab/src/algo/line_search.rs", "russell_lab/src/algo/num_jacobian.rs", "russell_lab/src/algo/cubic.rs", "russell_lab/src/algo/linear_fitting.rs"],
     "Adaptive Gauss quadrature, Brent's methods, companion-matrix roots with polishing, Newton with Armijo line search, five-point differences")
prop("C10", "A failing user callback is always reported, never swallowed or crashed on",
     "Every routine that takes a fallible user function (interpolation, quadrature, root and minimum finding, Newton iteration, numerical Jacobians, differential-equation right-hand sides, Jacobians and output callbacks, continuation residuals, Jacobians and output callbacks) returns the very error of that function whichever call number it is raised at, and never panics or reports success. "
     "After such a failure the object can be used again and gives the same result as a fresh one.",
     ["fault_sequences", "inputs"], "all routines with callbacks, all call numbers at which the callback may fail, all problem inputs",
     "Unit tests inject an error at one or two chosen calls in some routines; they do not enumerate all call numbers or reuse the object afterwards.",
     ["russell_lab/src/algo/", "russell_sparse/src/numerical_jacobian.rs", "russell_ode/src/", "russell_nonlin/src/"],
     "Error propagation through nested evaluation loops, some of which run in worker threads")
prop("C11", "Containers, ordering, sampling grids and text tables keep their data",
     "Vectors and matrices hand back exactly what was stored under every construction, view, conversion, split/join, row/column extraction, serialization and copy; sorting routines return the ordered permutation of their inputs and argument-sorts a valid, stable ordering permutation; "
     "equally spaced and mapped sequences of real numbers start and end exactly at the requested limits with monotone spacing; and numeric text tables are parsed to the written numbers or rejected with an error, never with a crash.",
     ["inputs"], "all sizes and values (including NaN, ties, signed zeros), all table layouts with blanks and comments, arbitrary malformed text",
     "Unit tests use small fixed examples and a few files.",
     ["russell_lab/src/matrix/num_matrix.rs", "russell_lab/src/vector/num_vector.rs", "russell_lab/src/base/"],
     "Column-major indexing, iterator and serde conversions, comparison networks, text parsing")
# ------------------------------------------------------------------ sparse
prop("C12", "Sparse formats and conversions represent the same matrix",
     "A sparse matrix built from any sequence of triplet insertions (with duplicates, in any order, real or complex, general or symmetric in full, lower or upper storage) represents the same dense matrix after conversion to compressed-column, compressed-row or dense form, after conversion between the compressed forms, after in-place refresh from new triplet values, and after serialization; compressed forms are sorted, duplicate-free and structurally valid. "
     "Invalid structures, out-of-range or wrong-triangle insertions and overflow of the reserved capacity are rejected with an error.",
     ["inputs", "histories"], "all shapes, sparsity patterns, duplicate patterns, storage kinds, and sequences of put, reset, convert and refresh",
     "Unit tests use a fixed set of sample matrices converted once.",
     ["russell_sparse/src/coo_matrix.rs", "russell_sparse/src/csc_matrix.rs", "russell_sparse/src/csr_matrix.rs"],
     "Counting-sort conversions with duplicate summation and sort using reusable workspaces",
     state=[{"name": "conversion workspaces", "meaning": "temporary arrays kept between refreshes"}])
prop("C13", "Sparse matrix algebra equals dense algebra",
     "Products of a sparse matrix (any format and storage kind, real or complex) with a vector, transposed products, accumulating products, scaled assignment and addition of one matrix into another, real-into-complex combination, bordered (Lagrange-multiplier) insertion and the residual verification report equal the same operation on the dense matrices up to rounding. "
     "Incompatible dimensions or storage kinds are rejected with an error.",
     ["inputs"], "all shapes, patterns, storage kinds, coefficients and vectors",
     "Unit tests check fixed sample matrices.",
     ["russell_sparse/src/coo_matrix.rs", "russell_sparse/src/complex_coo_matrix.rs", "russell_sparse/src/csc_matrix.rs", "russell_sparse/src/csr_matrix.rs", "russell_sparse/src/verify_lin_sys.rs"],
     "Triplet and compressed loops with mirrored contributions for triangular storage")
prop("C14", "The sparse direct solver solves, refactors and rejects correctly",
     "For every non-singular sparse system, real or complex, the direct solver returns a solution with a residual at rounding level under every ordering, scaling and pivoting option, any number of right-hand sides and any legal sequence of factorize, refactorize-with-new-values and solve calls, identical to that of a fresh solver. "
     "The reported determinant equals the matrix determinant, and singular matrices, calls out of order, changed structure or dimensions and unsupported storage give an error and never a wrong or stale solution.",
     ["inputs", "histories", "configurations"], "all patterns and values, orderings and scalings, and call sequences mixing valid and invalid operations",
     "Unit tests run a fixed sequence on a few fixed matrices.",
     ["russell_sparse/src/solver_umfpack.rs", "russell_sparse/src/complex_solver_umfpack.rs", "russell_sparse/src/lin_solver.rs", "russell_sparse/c_code/interface_umfpack.c", "russell_sparse/c_code/interface_complex_umfpack.c"],
     "C interface holding symbolic and numeric factorizations behind flags, triplet to compressed-column conversion with reuse",
     state=[{"name": "initialized/factorized flags and stored symmetry, size and entry count", "meaning": "what the solver believes it holds"}])
prop("C15", "Matrix files written are read back equal, malformed files are rejected",
     "A real or complex sparse matrix written to a Matrix-Market file and read back with any symmetry handling represents the same matrix, entry for entry, and the header counts match the entries written. "
     "Reading any other byte content either gives a matrix that the text describes or an error, never a crash. "
     "Solver statistics written to a file are read back equal, with totals and averages of the recorded times.",
     ["inputs"], "all matrices and storage kinds written; all valid hand-written layouts (comments, blanks, case) and arbitrary corrupted or truncated files",
     "Unit tests read a fixed set of sample files.",
     ["russell_sparse/src/read_matrix_market.rs", "russell_sparse/src/write_matrix_market.rs", "russell_sparse/src/stats_lin_sol.rs"],
     "Line-oriented parser with header state machine, symmetric expansion; formatted writer with tolerance filter")
# ------------------------------------------------------------------ stat
prop("C16", "Probability distributions are mutually consistent",
     "For every supported distribution and all valid parameters the density is the derivative of the cumulative function, the cumulative function rises monotonically from 0 to 1, the reported mean and variance are those of the density, parameter conversions reproduce the requested moments, and generated samples follow the cumulative function. "
     "Invalid parameters are rejected with an error.",
     ["inputs"], "all parameter values in a wide range, all arguments including support boundaries and tails, all generator seeds",
     "Unit tests compare with tables for a few parameter sets.",
     ["russell_stat/src/distribution_normal.rs", "russell_stat/src/distribution_lognormal.rs", "russell_stat/src/distribution_gumbel.rs", "russell_stat/src/distribution_frechet.rs", "russell_stat/src/distribution_uniform.rs"],
     "Closed-form densities and cumulative functions with separate formulas for moments and sampling")
prop("C17", "Descriptive statistics and histograms equal their definitions",
     "Minimum, maximum, mean, standard deviation, quantiles, quartiles, inter-quartile range, outlier detection and histogram counts of any data set equal their definitions computed independently, do not depend on the order of the data, and count every datum inside the stations exactly once. "
     "Degenerate data (empty, single, constant) give the documented results.",
     ["inputs", "histories"], "all data sets and integer or real element types, bin stations, and sequences of counting and resetting",
     "Unit tests use fixed small data sets.",
     ["russell_stat/src/statistics.rs", "russell_stat/src/quantile.rs", "russell_stat/src/quartiles.rs", "russell_stat/src/outliers.rs", "russell_stat/src/histogram.rs"],
     "Single-pass accumulators, linear-interpolated order statistics, binary bin search")
# ------------------------------------------------------------------ tensor
prop("C18", "Tensor representations round-trip and preserve norms",
     "Second-, third- and fourth-order tensors loaded from standard components in any admissible representation (general, symmetric, plane symmetric) return the same standard components through every accessor and conversion, the internal vector has the same norm and inner products as the tensor, component setters affect exactly the stated components, and serialization preserves the object. "
     "Components that the representation cannot hold are rejected with an error.",
     ["inputs"], "all component values and representations, all accessor and conversion paths, freshly created or previously used destination objects",
     "Unit tests use fixed sample tensors with fresh destinations.",
     ["russell_tensor/src/tensor2.rs", "russell_tensor/src/tensor3.rs", "russell_tensor/src/tensor4.rs", "russell_tensor/src/tensor1.rs", "russell_tensor/src/enums.rs"],
     "Kelvin (Mandel) basis with square-root-of-two scaling and per-representation index maps")
prop("C19", "Tensor operations equal their index-notation definitions",
     "Sums, dot products, double contractions, dyadic, overbar/underbar and symmetrized dyadic products, transposes, determinants, inverses, squares, traces, deviators, and fourth-order inverses and constant tensors give the components prescribed by index notation, for all admissible combinations of representations and through every alternative implementation. "
     "Non-invertible tensors yield no inverse rather than a wrong one.",
     ["inputs", "configurations"], "all component values, all admissible combinations of representations, all scalar factors, both loop and unrolled implementations",
     "Unit tests compare a few sample tensors; most formulas are long hand-expanded expressions where a single wrong term can go unnoticed on sparse samples.",
     ["russell_tensor/src/operations_mix1.rs", "russell_tensor/src/operations_mix2.rs", "russell_tensor/src/operations_t2.rs", "russell_tensor/src/operations_t4.rs", "russell_tensor/src/tensor2.rs", "russell_tensor/src/tensor4.rs"],
     "Hand-expanded component formulas in the Kelvin basis")
prop("C20", "Invariants and spectral representation are frame-indifferent and consistent",
     "Characteristic, deviatoric, octahedral and Lode invariants equal their definitions from eigenvalues, do not change under rotation of the tensor, and determine the principal values from which a tensor can be rebuilt; the spectral decomposition gives projectors that sum to the identity, are idempotent and mutually orthogonal, and recompose the tensor. "
     "Invariants that are undefined for a purely spherical tensor are reported as undefined.",
     ["inputs"], "all symmetric tensors including repeated principal values, all rotations, all octahedral coordinates",
     "Unit tests check fixed samples.",
     ["russell_tensor/src/tensor2.rs", "russell_tensor/src/spectral2.rs"],
     "Closed-form invariants, Jacobi eigenprojectors")
prop("C21", "Tensor derivatives equal numerical derivatives",
     "The first derivatives of norms and invariants, the second derivatives of invariants, and the derivatives of the inverse and squared tensor equal the numerical derivatives of the corresponding functions for all tensors where they exist, in every admissible representation. "
     "Where a derivative does not exist the routine says so.",
     ["inputs"], "all tensors away from singularities, all admissible representations",
     "Unit tests check a few sample tensors.",
     ["russell_tensor/src/derivatives_t2.rs", "russell_tensor/src/derivatives_t4.rs"],
     "Hand-derived closed-form expressions in the Kelvin basis")
prop("C22", "Linear elasticity relations are mutually consistent",
     "For all admissible elastic constants the modulus, its inverse, the conversions between Young/Poisson and bulk/shear constants, the stress computed from strain and the out-of-plane strain satisfy Hooke's law in three dimensions, plane strain and plane stress. "
     "Setting the constants again on an existing object gives the same results as a new one.",
     ["inputs", "histories"], "all admissible constants, strains, dimensions and plane-stress settings, any sequence of parameter changes",
     "Unit tests use one or two sets of constants.",
     ["russell_tensor/src/lin_elasticity.rs"],
     "Analytic modulus and compliance assembly")
# ------------------------------------------------------------------ ode
prop("C23", "Fixed-step integration has the advertised order of accuracy",
     "With equal steps every integration method reaches exactly the end point with the expected number of steps, integrates polynomial right-hand sides up to its order exactly, and its error on smooth linear and nonlinear systems (coupled, non-autonomous) shrinks with the step at the rate of the order it advertises.",
     ["inputs", "configurations"], "all methods, generated linear and nonlinear systems with known solutions, all interval lengths and step counts",
     "Unit tests check a few fixed problems to tabulated numbers; a wrong tableau coefficient that only affects non-autonomous or coupled problems or one method may not show.",
     ["russell_ode/src/explicit_runge_kutta.rs", "russell_ode/src/constants.rs", "russell_ode/src/euler_forward.rs", "russell_ode/src/euler_backward.rs", "russell_ode/src/radau5.rs", "russell_ode/src/ode_solver.rs"],
     "Butcher tableaux and implicit Newton iterations driven by a common step loop")
prop("C24", "Adaptive integration delivers accuracy proportional to the tolerance",
     "With automatic stepping every embedded method finishes exactly at the end point with an error that is a modest multiple of the requested tolerance, on generated stiff and non-stiff systems with known solutions, on systems with constant mass matrices and algebraic constraints where supported, with analytical or numerical Jacobians and with any valid configuration. "
     "Unsupported combinations and invalid parameters give an error, and a run that cannot finish is reported as an error instead of returning a wrong state. "
     "Stiffness detection, where offered, reports the product of step and spectral radius, the station and the step at which stiffness is ratified according to its counts, and does not change the solution.",
     ["inputs", "configurations"], "all embedded methods, tolerances, initial steps, controller settings, systems with known solutions, mass matrices",
     "Unit tests run fixed benchmark problems at one tolerance.",
     ["russell_ode/src/ode_solver.rs", "russell_ode/src/explicit_runge_kutta.rs", "russell_ode/src/radau5.rs", "russell_ode/src/params.rs", "russell_ode/src/system.rs"],
     "Embedded error estimators, step controllers, simplified Newton with Jacobian reuse")
prop("C25", "Integration output records exactly what the solver computed",
     "Step output starts at the initial state, ends at the end point with the returned state, is strictly increasing and has one entry per accepted step; dense output is delivered at exactly the requested stations with values as accurate as the solution itself; callbacks, recorded arrays and files all report the same data; and asking for output does not change the computed solution. "
     "A callback can stop the integration at any output: nothing further is computed or shown, and the returned state is that at the end of the last accepted step.",
     ["inputs", "configurations", "histories"], "all methods, output kinds and combinations, station lists and intervals, stop positions",
     "Unit tests check a few fixed combinations.",
     ["russell_ode/src/output.rs", "russell_ode/src/erk_dense_out.rs", "russell_ode/src/ode_solver.rs", "russell_ode/src/radau5.rs"],
     "Output object with step and dense channels called from the step loop; interpolation coefficients per method")
prop("C26", "Solver objects are reusable, deterministic and truthful about their work",
     "Solving again with the same solver object (same or different interval, initial state or updated parameters) gives bit-for-bit the result of a fresh solver, independent of threads used inside a step; counters equal the number of calls made to the user functions (apart from the base point of a numerical Jacobian and the last evaluation needed by the dense output of DoPri8), and accepted plus rejected steps are consistent with the number of steps.",
     ["histories", "schedules", "configurations"], "all methods, sequences of solve and parameter-update calls, serial and concurrent linear algebra",
     "Unit tests create one solver per problem and check counters on fixed problems.",
     ["russell_ode/src/ode_solver.rs", "russell_ode/src/radau5.rs", "russell_ode/src/euler_backward.rs", "russell_ode/src/workspace.rs", "russell_ode/src/stats.rs"],
     "Workspace reset at the start of a solve plus per-method retained state",
     state=[{"name": "reused Jacobian/factorization flags and Newton contraction estimates", "meaning": "state surviving from the previous step or solve"}])
# ------------------------------------------------------------------ pde
prop("C27", "Finite-difference solutions satisfy the discrete problem and its limits",
     "Solutions of the Poisson/Helmholtz problem by finite differences in one and two dimensions take the prescribed values at the prescribed boundary nodes, are exact for solutions of low polynomial degree, converge with second order otherwise, and satisfy flux and periodic conditions (the last node of a periodic direction is the neighbour of the first), for every admissible combination of boundary conditions, grids and coefficients. "
     "The elimination and the multiplier approach give the same solution, with or without symmetric storage.",
     ["inputs", "configurations"], "all grids, coefficients, boundary-condition combinations per side including periodic, manufactured solutions",
     "Unit tests check a few fixed problems and boundary combinations.",
     ["russell_pde/src/fdm_1d.rs", "russell_pde/src/fdm_2d.rs", "russell_pde/src/essential_bcs_2d.rs", "russell_pde/src/natural_bcs_2d.rs"],
     "Five-point molecule with mirrored ghost nodes, halved boundary rows, partitioned or bordered systems")
prop("C28", "Spectral solutions are exact for polynomials up to their degree",
     "Spectral collocation solutions in one and two dimensions, on rectangles and on mapped domains, reproduce every polynomial (or smooth function, to spectral accuracy) solution for every admissible combination of prescribed-value and prescribed-flux sides and coefficients; the elimination and multiplier approaches agree, and the computed flow vectors equal minus conductivity times the gradient.",
     ["inputs", "configurations"], "all polynomial orders, intervals and rectangles, mapped quadrilaterals and rings, coefficients, boundary-condition combinations",
     "Unit tests check a few fixed problems.",
     ["russell_pde/src/spc_1d.rs", "russell_pde/src/spc_2d.rs", "russell_pde/src/spc_map_2d.rs"],
     "Chebyshev-Gauss-Lobatto differentiation matrices scaled to the domain, metric terms of the mapping")
prop("C29", "Grids, equation numbering and discrete systems are consistent",
     "Grid nodes, indices, sides, corners and spacings are consistent with each other and with the coordinates; unknown and prescribed equations partition all equations with inverse numbering; the partitioned, bordered, triangular and full discrete matrices describe one and the same operator, which is symmetric where documented; and vectors assembled or joined by equation return to the grid order. "
     "Boundary conditions that are missing, duplicated or contradictory are rejected.",
     ["inputs", "configurations"], "all grid sizes and coordinates, prescribed sets, boundary-condition assignments and their order",
     "Unit tests check fixed small grids.",
     ["russell_pde/src/grid_1d.rs", "russell_pde/src/grid_2d.rs", "russell_pde/src/equation_handler.rs", "russell_pde/src/essential_bcs_1d.rs", "russell_pde/src/essential_bcs_2d.rs", "russell_pde/src/natural_bcs_1d.rs", "russell_pde/src/fdm_2d.rs", "russell_pde/src/spc_2d.rs"],
     "Index arithmetic for nodes on sides and equation renumbering")
prop("C30", "Transfinite maps match their boundaries and metrics match the map",
     "Transfinite maps in two and three dimensions reproduce their boundary curves and faces and corner points, their first and second derivatives equal the derivatives of the mapped point, and the metric quantities (co- and contravariant bases, metric tensors, Christoffel symbols, Laplacian coefficients) computed from them satisfy their defining identities.",
     ["inputs"], "all polynomial/trigonometric boundary curves with matching corners, all reference coordinates including edges and corners",
     "Unit tests check fixed sample maps at selected points.",
     ["russell_pde/src/transfinite_2d.rs", "russell_pde/src/transfinite_3d.rs", "russell_pde/src/transfinite_samples.rs", "russell_pde/src/metrics.rs"],
     "Blending functions with hand-expanded derivative formulas; metric formulas")
# ------------------------------------------------------------------ nonlin
prop("C31", "Continuation follows the solution curve and honours its stop rule",
     "Every state accepted by natural-parameter or pseudo-arclength continuation (with any linear-algebra variant, predictor or step control) satisfies the nonlinear system within tolerance, successive states advance along the branch in the requested direction through fold points, constant or listed increments are applied as given, and the run ends exactly when the chosen stop rule first holds, landing on a targeted parameter value (pseudo-arclength: whenever the tangent prediction passes it). "
     "When the target cannot be reached the returned status says so and the state is the last accepted one; merely using up the allowed number of steps is not a failure.",
     ["inputs", "configurations"], "generated systems with known solution curves (with and without folds), all stop rules, step controls, tolerances and directions",
     "Unit tests run fixed sample problems.",
     ["russell_nonlin/src/solver.rs", "russell_nonlin/src/solver_natural.rs", "russell_nonlin/src/solver_arclength.rs", "russell_nonlin/src/enums.rs", "russell_nonlin/src/delta_lambda.rs"],
     "Predictor-corrector loop with tangent update, targeting mode and step-size adaptation")
prop("C32", "Continuation callbacks, records and counters follow the protocol",
     "During a continuation run external state is backed up before every automatically controlled step and restored after every rejected one, recorded values and callback values equal the accepted states, counters equal the number of calls actually made, and re-running with the same solver object reproduces the run of a fresh one. "
     "Invalid configurations, stop rules, increments and dimensions are rejected with an error.",
     ["histories", "inputs", "configurations", "fault_sequences"], "all methods and configurations, secondary-update failures at any call, repeated solves",
     "Unit tests check single runs on fixed problems.",
     ["russell_nonlin/src/solver.rs", "russell_nonlin/src/output.rs", "russell_nonlin/src/stats.rs", "russell_nonlin/src/config.rs", "russell_nonlin/src/iteration_error.rs", "russell_nonlin/src/system.rs"],
     "Workspace flags, optional callbacks and recorders called from the step loop")

prop("C33", "Automatic step sizes obey the configured limits and control rules",
     "With automatic stepping the first attempt of the ODE integrators has the configured initial size, every later size differs from the one before by a factor within the configured multipliers and responds to tolerances, safety factor and previous error as documented, never grows right after a rejected attempt, a rejected first step uses the configured reduction, and a run that fits into the allowed number of steps succeeds while one that does not fails. "
     "Automatic continuation steps have the size announced before, shrink by the configured factor after a failure, never grow right after one, and otherwise follow the documented controller of iteration counts and tangent changes.",
     ["inputs", "configurations", "histories"], "embedded explicit methods and the implicit one, natural and arclength continuation, random systems, multipliers, tolerances, controller coefficients and failures",
     "Unit tests compare step counts of fixed problems with default settings.",
     ["russell_ode/src/ode_solver.rs", "russell_ode/src/explicit_runge_kutta.rs", "russell_ode/src/radau5.rs", "russell_ode/src/params.rs", "russell_nonlin/src/solver.rs", "russell_nonlin/src/solver_arclength.rs", "russell_nonlin/src/solver_natural.rs", "russell_nonlin/src/config.rs", "russell_nonlin/src/enums.rs"],
     "Error-based multipliers with clamps and rejection flags kept in the workspace between steps")

prop("C34", "Iterative corrections stop exactly at their configured limits",
     "The corrections made in every continuation step and the iterations of the implicit one-stage integrator accept the first iterate whose residual (or, for continuation, scaled correction) meets the configured tolerance, return that iterate, and otherwise make exactly the allowed number of iterations. "
     "A correction that fails is reported with the reason that occurred (too many iterations, too large correction, continued growth of residual or correction, not-a-number) at the iteration at which the configured limit is exceeded, leaves the accepted state untouched, and with automatic stepping is repeated with the reduced step until the allowed number of consecutive failures or the smallest step is reached.",
     ["inputs", "configurations", "histories"], "prescribed residual and Jacobian sequences (growing, shrinking, erratic, not finite) and random tolerances and limits, fixed and automatic steps, both continuation methods, traditional and modified iterations",
     "Unit tests use problems whose corrections converge at once, with default limits.",
     ["russell_nonlin/src/iteration_error.rs", "russell_nonlin/src/solver_natural.rs", "russell_nonlin/src/solver_arclength.rs", "russell_nonlin/src/solver.rs", "russell_ode/src/euler_backward.rs"],
     "Counters and previous norms of the iteration error kept over the iterations of a step")

prop("C35", "Changes of sign and of units go through every solver exactly",
     "Multiplying the data of a problem by signs and powers of two, together with the absolute tolerances and step sizes, changes the answer by exactly these factors and leaves the course of the computation (steps, iterations, evaluations, success or failure) unchanged. "
     "This holds for the integration of differential equations with every method, for continuation (signs), integrals, roots, minima and brackets of functions, Newton's method, dense and sparse linear systems, Cholesky factors, boundary value problems by finite differences and spectral collocation, and for distributions and statistics.",
     ["inputs", "configurations"], "random problems of each kind, random signs per unknown and equation, powers of two within the normal range of numbers",
     "Unit tests use problems of order one with positive data; a comparison that forgets an absolute value or a scale passes them.",
     ["russell_ode/src/explicit_runge_kutta.rs", "russell_ode/src/radau5.rs", "russell_ode/src/euler_backward.rs", "russell_ode/src/ode_solver.rs", "russell_nonlin/src/solver_natural.rs", "russell_nonlin/src/solver_arclength.rs", "russell_nonlin/src/iteration_error.rs", "russell_lab/src/algo", "russell_lab/src/matrix", "russell_sparse/src/solver_umfpack.rs", "russell_pde/src", "russell_stat/src"],
     "Error norms, convergence tests, thresholds and step controllers that compare signed or scaled quantities")

prop("C36", "Logs and printed statistics state what the solvers did",
     "The log file of a continuation run lists in order every attempted step with the parameter value it starts from and its size, the iterations of each attempt with number, residual, corrections and whether they converge or diverge, the attempts that did not converge, the final parameter value, the statistics and the reason of a failure. "
     "The printed statistics of integration, continuation, quadrature, root and minimum search and Newton's method show the numbers counted and the times measured during the run, and the distributions of iteration counts and convergence rates equal those of the recorded residuals.",
     ["inputs", "configurations", "histories"], "random curves, start points, step and iteration limits, rejected steps, logging options; random integration problems and methods; random scalar functions",
     "Unit tests compare the text of empty or hand-filled statistics; what is printed after a real run with rejections is not compared with the calls made.",
     ["russell_nonlin/src/logger.rs", "russell_nonlin/src/stats.rs", "russell_nonlin/src/solver.rs", "russell_ode/src/stats.rs", "russell_lab/src/algo/stats.rs", "russell_stat/src/histogram.rs"],
     "Logger buffer and iteration errors shown by it; counters and stopwatches of the statistics objects",
     )

prop("C37", "Independent computations do not influence each other",
     "The result of a computation depends only on its own inputs and settings: it is the same, bit for bit, alone in a new thread, after any other computations in the same process, and while other computations run in other threads. "
     "A computation made with separate objects inside a callback of another one (right-hand side, residual, Jacobian, boundary or source function, integrand) terminates and gives the result it gives alone, and so does the surrounding computation. "
     "This holds for dense and sparse solvers, integration, continuation, boundary-value problems, scalar numerics, special functions, tensors, statistics and files.",
     ["schedules", "histories", "inputs", "programs"], "random sets of 1 to 6 computations of 13 kinds with random data and settings; random orders with repetitions, random nesting, 2 to 4 threads started together",
     "Tests run one computation at a time on fresh objects; hidden shared state shows only in combinations.",
     ["russell_lab/src", "russell_sparse/src", "russell_ode/src", "russell_nonlin/src", "russell_pde/src", "russell_tensor/src", "russell_stat/src"],
     "absence of process-wide or per-thread state in the library and in the wrapped solvers; workspaces owned by each object",
     )
prop("C38", "Command-line programs do what the options ask and report it",
     "The program that solves a linear system from a Matrix-Market file ends successfully for every readable square non-singular matrix, real or complex, with any valid options, and prints (unless hidden) one report whose matrix description, requested options, one set of times per run with totals and averages, determinant if requested, and verification figures are those of the file and the options, with a residual at rounding level. "
     "Unreadable files, rectangular or structurally singular matrices, solvers that are not available and invalid options make it end with an error status and a message, without a report and never with a crash. "
     "The program that integrates the reaction-diffusion benchmark rejects invalid options, echoes the valid ones and prints the counters that the library gives with the same settings.",
     ["inputs", "configurations"], "random matrix files (kinds, sizes, orders, scales) and option combinations in short and long form; damaged files; random settings of the benchmark",
     "The programs have no tests at all; the tests exercise library functions only.",
     ["russell_sparse/src/bin/solve_matrix_market.rs", "russell_ode/src/bin/brusselator_pde.rs", "russell_sparse/src/stats_lin_sol.rs", "russell_sparse/src/read_matrix_market.rs"],
     "option parsing, dispatch to the real or complex solver, accumulation of statistics over runs, report as JSON",
     observe=["exit status and standard output of the programs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
for p in P:
    n = p["statement"].count(". ") + 1
    if n > 3: print("too many sentences", p["id"], n)
