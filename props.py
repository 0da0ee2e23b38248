from registry import P
SAMP = 'The existing tests evaluate a handful of fixed examples; the property quantifies over %s, and a change confined to %s passes all of them.'
def why(q, site): return SAMP % (q, site)

# ---------------------------------------------------------------- base
P('C01', 'Dense vector and matrix arithmetic follows its mathematical definition',
  'For dense vectors and matrices of every size (dynamic or fixed), each arithmetic operation, product, norm, transpose, block/row/column extraction, insertion and resize yields what its definition says, for any sequence of operations and also when an argument aliases the object being changed. Inversion yields a true inverse or reports singularity, and every dimension or index that does not fit is rejected with an exception while the object stays unchanged.',
  'all sizes and shapes, element values and operation histories, including self-aliasing arguments and out-of-range indices', why('all shapes and operation histories', 'one shape class (non-square, 1xN) or one aliased call'),
  ['mml/base/Matrix/Matrix.h', 'mml/base/Matrix/MatrixNM.h', 'mml/base/Vector/Vector.h', 'mml/base/Vector/VectorN.h'],
  [('flat row-major storage with row pointers', 'mml/base/Matrix/Matrix.h'), ('dimension checks throwing MatrixDimensionError/VectorDimensionError', 'mml/base')], over=('inputs', 'histories'),
  src=['C01.cpp', 'C01b.cpp'], rule='random shapes, element types and operation histories compared with a plain reference model; non-trivial: rectangular shape, multi-step history with an aliased/rejected/resizing step, or ill-conditioned inverse', scale=15)
P('C02', 'Structured and 3-D matrices agree with the dense matrices they stand for',
  'A symmetric, tridiagonal, band-diagonal or three-dimensional matrix holds, under any history of writes, exactly the elements written, and every operation on it (arithmetic, products, transpose, trace, norms, inversion, linear solve, conversion) gives the same result as the equivalent dense matrix. Positions outside the structure read as zero and cannot be written.',
  'all sizes, bandwidths, values and write histories', why('all sizes and band shapes', 'edges of the band or one triangle of the symmetric storage'),
  ['mml/base/Matrix/MatrixSym.h', 'mml/base/Matrix/MatrixTriDiag.h', 'mml/base/Matrix/MatrixBandDiag.h', 'mml/base/Matrix/Matrix3D.h'],
  [('packed storage index maps', 'mml/base/Matrix')], over=('inputs', 'histories'),
  src=['C02.cpp', 'C02b.cpp'], rule='random sizes, bandwidths, integer contents and write histories compared with a dense table; non-trivial: dimension above 2 with asymmetric band or resized history', scale=20)
P('C03', 'Direct linear solvers solve the system or report that they cannot',
  'For every non-singular matrix, each direct method (Gauss-Jordan, LU, QR, Cholesky, band LU, for one or several right-hand sides) returns a solution with a backward error at rounding level, and its factors, determinant and inverse reproduce the matrix. A matrix that is exactly singular, or not positive definite where that is required, is reported by an exception or status instead of a wrong answer, and the inputs are left unmodified.',
  'all square (and for QR tall) matrices and right-hand sides', why('all matrices', 'particular pivot patterns, permutations or sizes'),
  ['mml/core/LinAlgEqSolvers/LinAlgDirect.h', 'mml/core/LinAlgEqSolvers/LinAlgQR.h'], [('pivoting and singularity tests', 'mml/core/LinAlgEqSolvers/LinAlgDirect.h')],
  src=['C03.cpp'], rule='random regular, ill-conditioned, permuted, scaled, banded, SPD and singular systems checked by long-double residuals, forward error times condition, factor products and exact determinants; non-trivial: dimension above 2 with condition above 3, rectangular, or constructed singular of order above 1', scale=12)
P('C04', 'Singular value decomposition is a true SVD and gives minimum-norm solutions',
  'For every real matrix of any shape and rank, the decomposition returns orthonormal factors and sorted non-negative singular values that multiply back to the matrix. Rank, nullity, range, null space, condition number, pseudo-inverse and least-squares solutions derived from it satisfy their definitions.',
  'all shapes, ranks and values', why('all shapes and ranks', 'wide or rank-deficient matrices'), ['mml/core/LinAlgEqSolvers/LinAlgSVD.h'], [('Golub-Kahan implicit-shift iteration', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h')],
  src=['C04.cpp'], rule='tall, square and wide matrices built from orthogonal factors with chosen singular values, exact integer products of known rank, sparse and scaled matrices; non-trivial: both dimensions above 1 and matrix not zero', scale=40)
P('C05', 'Iterative linear solvers only claim convergence when the system is solved',
  'Whenever an stationary iterative solver (Jacobi, Gauss-Seidel, SOR) reports convergence, the returned vector satisfies the system to the requested tolerance, and the reported residual and iteration counts are truthful. On matrix classes for which the method is guaranteed to converge it does converge, and otherwise it stops within its iteration limit and says so.',
  'all matrices, right-hand sides, initial guesses, tolerances and iteration limits', why('all systems and limits', 'the stopping test or the report'), ['mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h'], [('residual-based stopping', 'mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h')],
  src=['C05.cpp'], rule='random diagonally dominant, positive definite and arbitrary systems, start vectors, tolerances, relaxation factors and limits; residuals recomputed in long double, iterates compared with a reference iteration; non-trivial: dimension above 2', scale=30)
P('C06', 'Eigenvalue solvers return complete and true eigenpairs',
  'For every symmetric matrix the solvers return all eigenvalues, sorted as documented, with orthonormal eigenvectors that diagonalise it; for every general real matrix they return all eigenvalues with multiplicity, complex ones in conjugate pairs, with eigenvectors that satisfy the eigen-equation. Reduction steps are similarity transforms and reported residuals and convergence flags are truthful.',
  'all symmetric and general real matrices, including repeated, clustered, zero and complex eigenvalues', why('all spectra', 'deflation or complex pairs'), ['mml/algorithms/EigenSystemSolvers.h', 'mml/algorithms/EigenSolverHelpers.h'], [('Jacobi/QR iterations with deflation', 'mml/algorithms/EigenSystemSolvers.h')],
  src=['C06.cpp'], rule='symmetric matrices with known, repeated, clustered or scaled spectra and general matrices of nine structural kinds; eigenpairs checked by long-double residuals and completeness by evaluating the characteristic polynomial on a circle; non-trivial: order above 2', scale=25)
P('C07', 'Matrix predicates, invariants and constructions match their definitions',
  'Structure predicates (symmetric, triangular, orthogonal, definite, ...), rank, trace, determinant, characteristic polynomial, triangular solves, permutation handling, Hessenberg reduction and matrix constructions agree with direct evaluation of their definitions for every matrix. Invalid shapes are rejected by exception.',
  'all matrices of every shape', why('all matrices', 'one predicate or one element range'), ['mml/core/MatrixUtils.h', 'mml/algorithms/MatrixAlg.h', 'mml/base/BaseUtils/MatrixOps.h', 'mml/base/BaseUtils/VectorOps.h'], [('element loops over the stated index range', 'mml/base/BaseUtils/MatrixOps.h')],
  src=['C07.cpp'], rule='matrices of seven zero/symmetry structures with single elements disturbed around the tolerance, integer matrices (nilpotent, unipotent, singular, products of given rank) whose determinant, characteristic polynomial and rank are computed exactly, spectra of given signs; non-trivial: at least 2x2 (rank: rectangular of rank above 1)', scale=20)
P('C08', 'Polynomials form a ring with exact division and calculus',
  'Polynomial addition, multiplication, division with remainder, evaluation, composition-free calculus (derivatives, integrals), root construction, reduction and normal form agree with exact coefficient arithmetic for every degree, including zero and constant polynomials and aliased operands. Division satisfies dividend = quotient x divisor + remainder with a lower-degree remainder.',
  'all degrees and coefficients', why('all degrees', 'zero, constant or unnormalised polynomials'), ['mml/base/Polynom.h'], [('coefficient convolution, synthetic division', 'mml/base/Polynom.h')],
  src=['C08.cpp'], rule='coefficient lists of up to 10 integers (real, int, Gaussian), empty, zero and padded with zeros; dividends composed from quotient, divisor and remainder; non-trivial: degrees above 1 (division: non-constant quotient and divisor)', scale=10)
P('C09', 'Polynomial root finders return all roots with multiplicity',
  'For every polynomial of moderate degree, each root finder (closed forms up to quartic, eigenvalue-, Laguerre- and Bairstow-type methods) returns exactly degree-many roots whose product form reproduces the polynomial to within the conditioning of the roots. Real polynomials yield conjugate-closed root sets and degenerate leading coefficients are handled as documented.',
  'all coefficient sets including repeated, zero, tiny and complex roots', why('all coefficient sets', 'one discriminant branch'), ['mml/algorithms/RootFinding/RootFindingPolynoms.h'], [('closed-form branches and deflation', 'mml/algorithms/RootFinding/RootFindingPolynoms.h')],
  src=['C09.cpp'], rule='polynomials of degree up to 9 from integer, separated, repeated real and complex roots or from coefficients, scaled in x and y by powers of two; roots multiplied out in long double; non-trivial: degree above 1', scale=10)
P('C10', 'Scalar root finding brackets and converges to real sign changes',
  'Every bracket returned by the bracketing routines encloses a sign change inside the searched range, and every root finder given a valid bracket of a continuous function either returns a point within the requested accuracy of a root (inside the bracket, except for the secant method, which may leave it) or reports failure. Invalid brackets, non-finite function values and exhausted iteration limits are reported in message and status, never returned as a converged root; bisection, Ridders and Brent always converge.',
  'all continuous functions with known roots, brackets, tolerances and iteration limits', why('all functions and brackets', 'endpoint roots, descending functions or limits'), ['mml/algorithms/RootFinding/RootFindingBracketing.h', 'mml/algorithms/RootFinding/RootFindingMethods.h'], [('bracket maintenance in each method', 'mml/algorithms/RootFinding/RootFindingMethods.h')],
  src=['C10.cpp'], rule='continuous functions of ten shapes with exactly known roots (linear, flat, steep, kinked, multi-root), random brackets, tolerances, limits and injected non-finite values; node functions on dyadic grids for bracketing; non-trivial: valid bracket on a non-linear function, at least two sign changes', scale=10)
P('C11', 'One-dimensional integration is accurate, linear and orientation-aware',
  'For every smooth integrand and finite interval, each quadrature routine returns the integral to its requested accuracy when it reports convergence; results are linear in the integrand, additive over subintervals and change sign when the limits are swapped. Non-finite integrand values and exhausted refinement are reported rather than returned as converged.',
  'all smooth integrands with known antiderivatives, intervals and tolerances', why('all integrands and intervals', 'the refinement or the stopping test'), ['mml/core/Integration/Integration1D.h', 'mml/core/RichardsonExtrapolation.h'], [('trapezoid refinement and Richardson extrapolation', 'mml/core/Integration/Integration1D.h')],
  src=['C11.cpp'], rule='integrands of seven analytic families with exact antiderivatives, amplitudes over 16 decades, random intervals in both orientations, tolerances, injected non-finite values and exceptions; non-trivial: non-constant integrand', scale=2)
P('C12', 'Gaussian and Gauss-Kronrod quadrature are exact to their degree',
  'Every Gaussian rule (Legendre, Laguerre, Hermite, Jacobi, Chebyshev, mapped intervals, infinite ranges) of n points integrates all polynomials up to degree 2n-1 against its weight to rounding accuracy, with nodes inside the domain and positive weights. Gauss-Kronrod rules do so to their degree and their error estimates and convergence flags are truthful.',
  'all rule orders, parameters, intervals and polynomial integrands', why('all orders and parameters', 'one node or weight of one table'), ['mml/core/Integration/GaussianQuadrature.h', 'mml/core/Integration/GaussKronrod.h'], [('Newton refinement of nodes; constant tables', 'mml/core/Integration/GaussianQuadrature.h')],
  src=['C12.cpp'], rule='all six Gaussian families with random order, parameters and interval checked on single moments up to degree 2n-1 in long double; Gauss-Kronrod rules on degree up to 60, adaptive runs on kinks, steps, peaks and roots; non-trivial: more than two points, degree above 2, non-smooth integrand', scale=4)
P('C13', 'Multi-dimensional integration agrees with iterated integrals',
  'Double and triple integrals over variable limits, adaptive cubature and Monte-Carlo estimates agree with the exact iterated integral, within tolerance when convergence is reported and within statistical error for random sampling. Monte-Carlo results are reproducible from their seed and error estimates shrink with sample count.',
  'all polynomial and smooth integrands, boxes and variable boundaries', why('all integrands and regions', 'one axis or one boundary function'), ['mml/core/Integration/Integration2D.h', 'mml/core/Integration/Integration3D.h', 'mml/core/Integration/Integration2DAdaptive.h', 'mml/core/Integration/Integration3DAdaptive.h', 'mml/core/Integration/MonteCarloIntegration.h'], [('nested quadrature and subdivision', 'mml/core/Integration')],
  src=['C13.cpp'], rule='random polynomials in 2-3 variables over regions with polynomial boundaries (exact iterated integral by polynomial algebra), separable peaks/kinks for adaptive cubature, sampled histories and counters for Monte Carlo; non-trivial: variable boundaries, subdivided cells or at least 50 samples', scale=4)
P('C14', 'Improper integrals over infinite ranges and singular endpoints are handled',
  'Integrals over half-infinite and infinite ranges and with integrable endpoint or interior singularities return the exact value to the requested accuracy when they report convergence. Reflection and splitting of the range leave the value unchanged.',
  'all decaying integrands and integrable singularities of known value', why('all ranges and singularities', 'one variable substitution'), ['mml/core/Integration/IntegrationImproper.h', 'mml/core/SingularityHandling.h'], [('variable substitutions', 'mml/core/Integration/IntegrationImproper.h')],
  src=['C14.cpp'], rule='six decaying families with exact tail integrals over all half and full infinite ranges, polynomials times half-integer powers singular at either, both or interior ends, divergent and non-finite integrands; non-trivial: all (infinite), true singularity, degree above 1', scale=15)
P('C15', 'Path and surface integrals obey the fundamental theorems of vector calculus',
  'Curve length, scalar and vector line integrals, surface areas, fluxes and scalar surface integrals agree with closed forms, are invariant under reparametrisation and change sign with orientation where they must. Gradient theorem and divergence theorem hold for polynomial fields.',
  'all polynomial fields on parametrised curves, boxes and surfaces', why('all fields and curves', 'one component or orientation'), ['mml/core/Integration/PathIntegration.h', 'mml/core/Integration/SurfaceIntegration.h'], [('numerical tangent/normal times field', 'mml/core/Integration')],
  src=['C15.cpp'], rule='polynomial/helical curves, reparametrisations, gradient and rotational fields, polynomial surfaces and random triangles, cubes and tetrahedra with linear/quadratic fields against long-double Gauss quadrature, end-point differences, Stokes and divergence theorems; non-trivial: curved path (others: all)', scale=2)
P('C16', 'Numerical derivatives reach the accuracy of their order',
  'For every smooth scalar function of one variable and every point, the finite-difference derivatives of each order, direction and default or explicit step approximate the exact first, second and third derivative within the truncation and rounding error of that formula. Formulas of order n are exact, up to rounding, on polynomials of degree n.',
  'all smooth functions, points and step sizes', why('all functions and points', 'one stencil coefficient or the step choice'), ['mml/core/Derivation/DerivationRealFunction.h', 'mml/core/Derivation/DerivationBase.h'], [('finite-difference stencils', 'mml/core/Derivation/DerivationRealFunction.h')],
  src=['C16.cpp'], rule='sums of sines plus polynomials with exact derivatives of every order, every stencil, default and explicit steps, one-sided forms, Richardson tables, non-finite functions and bad steps; non-trivial: top polynomial coefficient present (exact law), derivative not negligible (Richardson)', scale=5)
P('C17', 'Multivariate derivatives agree with the exact partial derivatives',
  'Partial, mixed, gradient, Jacobian, Hessian, curve, surface and tensor-field derivatives approximate the exact ones in every component and index order, and Hessians are symmetric. Forward-mode automatic differentiation reproduces the exact derivative of every composed expression to rounding.',
  'all polynomial and elementary maps between R^n and R^m and points', why('all maps and index combinations', 'a swapped index or one component'), ['mml/core/Derivation/DerivationScalarFunction.h', 'mml/core/Derivation/DerivationVectorFunction.h', 'mml/core/Derivation/DerivationParametricCurve.h', 'mml/core/Derivation/DerivationParametricSurface.h', 'mml/core/Derivation/DerivationTensorField.h', 'mml/core/Derivation/Jacobians.h', 'mml/core/Derivation/ForwardAD.h'], [('stencils per component; dual numbers', 'mml/core/Derivation')],
  src=['C17.cpp', 'C17b.cpp'], rule='polynomial-plus-sine maps in 1..4 variables with every exact partial: scalar, vector, rectangular and dynamic Jacobians, curves, surfaces, tensor fields, default and explicit steps; random expression trees through dual numbers; non-trivial: map not constant, derivative above 1e-6', scale=3)
P('C18', 'Coordinate transformations are mutually inverse and transform tensors correctly',
  'For every point away from coordinate singularities, transforming to spherical, cylindrical, polar, oblique, rotated or other coordinates and back returns the point, and the numerical Jacobian matches the analytic one. Covariant and contravariant components transform so that invariants (lengths, contractions) are preserved.',
  'all points, vectors, rotations and bases', why('all points and quadrants', 'one quadrant or axis'), ['mml/core/CoordTransf.h', 'mml/core/CoordTransf/CoordTransf2D.h', 'mml/core/CoordTransf/CoordTransf3D.h', 'mml/core/CoordTransf/CoordTransfCylindrical.h', 'mml/core/CoordTransf/CoordTransfSpherical.h', 'mml/core/CoordSystem.h'], [('analytic forward and inverse maps', 'mml/core/CoordTransf')],
  src=['C18.cpp'], rule='spherical, cylindrical, polar, oblique, rotated (axis, Euler, quaternion), orthogonal and general bases at random points with exact Jacobians: maps, inverses, numerical Jacobians, basis vectors, co/contravariant vectors, rank 2-5 tensors; histories on the frame tree; frame kinematics; non-trivial: a refused cycle in a history longer than 4 (frame tree), point not the origin', scale=2)
P('C19', 'Lorentz transformations preserve the space-time interval',
  'For every sub-luminal velocity and direction, boosts preserve the Minkowski interval, are undone by the opposite boost, compose by relativistic velocity addition and reproduce time dilation. Velocities outside [0,1), including NaN, are rejected.',
  'all velocities, directions and events', why('all velocities', 'one matrix element of the boost'), ['mml/core/CoordTransf/CoordTransfLorentz.h'], [('boost matrix construction', 'mml/core/CoordTransf/CoordTransfLorentz.h')],
  src=['C19.cpp'], rule='boosts up to 1-1e-8 of light speed on random events against long-double boosts: interval, light cone, time dilation, composition, inverses, basis vectors and tensors; invalid velocities including NaN; non-trivial: velocity above 1e-6 (maps), both above 1e-3 (composition)', scale=5)
P('C20', 'Differential field operators agree in every coordinate system',
  'Gradient, divergence, curl and Laplacian computed in Cartesian, cylindrical, spherical and general coordinates describe the same field as the exact Cartesian expressions. Curl of a gradient and divergence of a curl vanish.',
  'all polynomial fields and points away from coordinate singularities', why('all fields and points', 'one scale factor or component'), ['mml/core/FieldOperations.h', 'mml/core/Fields.h'], [('scale-factor formulas', 'mml/core/FieldOperations.h')],
  src=['C20.cpp'], rule='a polynomial field that is not constant or linear in one variable, or a singular point', scale=1)
P('C21', 'Metric tensors and Christoffel symbols are those of the coordinate system',
  'The covariant and contravariant metric at every regular point are symmetric, mutually inverse and equal to the pull-back of the Euclidean or Minkowski metric. Christoffel symbols are symmetric, satisfy their definition, and covariant derivatives of the metric vanish.',
  'all points of all provided coordinate systems', why('all points', 'one index combination'), ['mml/core/MetricTensor.h'], [('metric component formulas, numerical derivatives', 'mml/core/MetricTensor.h')],
  src=['C21.cpp'], rule='a non-Cartesian coordinate system', scale=1)
P('C22', 'Quaternions compose and apply rotations consistently',
  'Quaternion algebra satisfies the division-ring laws; unit quaternions rotate vectors exactly as the equivalent rotation matrix, compose in the documented order and convert to and from axis-angle, Euler angles and matrices without changing the rotation. Interpolation stays on the unit sphere and takes the shorter arc at constant speed.',
  'all quaternions, axes, angles (including gimbal lock and half turns) and vectors', why('all rotations', 'one matrix-to-quaternion branch'), ['mml/base/Quaternions.h'], [('Hamilton product; branch on largest component', 'mml/base/Quaternions.h')],
  src=['C22.cpp'], rule='distinct non-zero quaternions, a rotation by a non-zero angle, non-zero Euler angles or an interior interpolation point', scale=4)
P('C23', 'Tensor algebra follows the index definitions',
  'Tensors of rank two to five add, scale, contract and evaluate on vectors exactly as the explicit index sums say, for every mixture of covariant and contravariant indices. Invalid index types or contractions are rejected.',
  'all components, index variances and argument vectors', why('all index combinations', 'one index position'), ['mml/base/Tensor.h', 'mml/base/BaseUtils/SymbolUtils.h'], [('nested index loops', 'mml/base/Tensor.h')],
  src=['C23.cpp'], rule='a tensor with a non-zero value on the generated vectors, or a permutation', scale=3)
P('C24', 'Interval membership and set operations agree with point-set semantics',
  'For every interval kind and endpoint, membership, containment, length and the results of union, intersection, difference and complement (of intervals without recurring holes) agree with the corresponding sets of real numbers. Equidistant samples lie inside, are increasing and have the requested count.',
  'all interval kinds, endpoints and points, including coinciding and infinite endpoints', why('all endpoint combinations', 'open/closed endpoint handling'), ['mml/base/Intervals.h', 'mml/interfaces/IInterval.h'], [('endpoint flags per interval type', 'mml/base/Intervals.h')],
  src=['C24.cpp'], rule='a non-empty interval (both operands for set operations, more than one sample or part)', scale=3)
P('C25', 'Interpolants reproduce their data and their polynomial degree',
  'Every interpolant (linear, polynomial, rational, spline, barycentric, two-dimensional, parametric curve) passes through all data points and reproduces the functions of its class exactly between them, for any node spacing. Evaluation order does not change results and invalid data or out-of-domain queries behave as documented.',
  'all node sets, data and query sequences', why('all node sets and query orders', 'the table search or an end interval'), ['mml/base/InterpolatedFunctions/InterpolatedRealFunction.h', 'mml/base/InterpolatedFunctions/Interpolation2DFunction.h', 'mml/base/InterpolatedFunctions/InterpolationParametricCurve.h'], [('ordered-table search with cached position', 'mml/base/InterpolatedFunctions/InterpolatedRealFunction.h')], over=('inputs', 'histories'),
  src=['C25.cpp'], rule='more than two nodes (or an invalid-data case)', scale=3)
P('C26', 'Plane geometry predicates and measures are exact and motion-invariant',
  'Distances, intersections, containment, areas, perimeters, centroids, angles and classifications of lines, segments, triangles, circles, boxes and polygons agree with exact arithmetic, whatever the position, orientation or vertex order. Degenerate input is rejected or classified as degenerate.',
  'all positions, orientations and degenerate configurations', why('all configurations', 'a parallel, vertical or touching case'), ['mml/base/Geometry/Geometry2DCore', 'mml/base/Geometry/GeometryCore/Geometry2DShapes.h', 'mml/base/Geometry/GeometryCore/GeometryPoints.h'], [('closed-form predicates', 'mml/base/Geometry')],
  src=['C26.cpp', 'C26b.cpp'], rule='the configuration is not the degenerate default (nonzero area / radius, or a genuine pair of lines)', scale=2)
P('C27', 'Space geometry of lines, planes and triangles is consistent',
  'Projections, distances, intersections and angles between points, lines, segments, planes and triangles in space satisfy their defining equations for every configuration, are symmetric where they should be and invariant under rigid motion. Parallel, skew and degenerate configurations are classified correctly.',
  'all configurations', why('all configurations', 'parallel or skew branches'), ['mml/base/Geometry/Geometry3DCore', 'mml/base/Geometry/GeometrySpherical.h'], [('vector formulas with tolerance tests', 'mml/base/Geometry/Geometry3DCore')],
  src=['C27.cpp'], rule='the configuration contains a genuine line, plane or triangle', scale=2)
P('C28', 'Solid bodies report the volume, surface and containment of their shape',
  'Volumes, surface areas, centroids, bounding boxes and spheres, and point containment of cubes, spheres, pyramids, tori, cylinders and other solids equal those of the mathematical body at any position. Surface meshes lie on the body and bounding volumes contain it.',
  'all dimensions, positions and query points', why('all dimensions and points', 'one face or offset'), ['mml/base/Geometry/Geometry3DBodiesCore', 'mml/base/Geometry/GeometryCore/Geometry3DShapes.h'], [('closed-form formulas and mesh construction', 'mml/base/Geometry/Geometry3DBodiesCore')],
  src=['C28.cpp', 'C28b.cpp'], rule='random query points fall both inside and outside the body', scale=4)
P('C29', 'Orthogonal polynomials and Chebyshev series satisfy their defining relations',
  'Legendre, Hermite, Laguerre and Chebyshev families satisfy recurrence, differential and orthogonality relations at every degree, and expansions reproduce functions in their span. Chebyshev approximations evaluate, differentiate, integrate and truncate consistently with the approximated function.',
  'all degrees, arguments and functions', why('all degrees', 'one normalisation'), ['mml/core/OrthogonalBasis', 'mml/algorithms/ChebyshevApproximation.h', 'mml/base/ChebyshevPolynom.h', 'mml/base/StandardFunctions.h'], [('three-term recurrences, Clenshaw', 'mml/core/OrthogonalBasis')],
  src=['C29.cpp'], rule='degree (or degree sum) at least 3 / at least 4 coefficients', scale=3)
P('C30', 'Typed vectors, points and angle helpers are mutually consistent',
  'Cartesian, polar, spherical, cylindrical and space-time vector and point types convert without changing the point they denote, and their products, angles and predicates follow the definitions. Angle conversion and normalisation return an equivalent angle in the documented range.',
  'all vectors, points and angles', why('all quadrants and magnitudes', 'one quadrant or wrap-around'), ['mml/base/Vector/VectorTypes.h', 'mml/base/Geometry/GeometryCore/GeometryPoints.h', 'mml/base/BaseUtils/AngleCoordUtils.h'], [('closed-form conversions', 'mml/base')],
  src=['C30.cpp'], rule='both operands non-zero and different / all components non-zero / |angle| > 3', scale=3)
# ---------------------------------------------------------------- ODE etc
P('C31', 'Fixed-step ODE integration converges at the order of its method',
  'For every initial value problem with a known solution each fixed-step method produces the requested number of points at the right times with an error that falls as its stated order when the step is halved, and is exact on polynomials of that degree. Linear problems superpose, and the supplied system and initial state are not modified.',
  'all linear and polynomial systems, step counts and intervals', why('all systems and step counts', 'one stage coefficient'), ['mml/algorithms/ODESolvers/ODESolverFixedStep.h', 'mml/algorithms/ODESolvers/ODEStepCalculators.h', 'mml/algorithms/ODESolvers/ODERKCoefficients.h', 'mml/base/ODESystemSolution.h'], [('Runge-Kutta tableaux', 'mml/algorithms/ODESolvers')],
  src=['C31.cpp'], rule='tree order at least 3 or the order of the method / at least 2 steps / coarse error above the rounding floor', scale=3)
P('C32', 'Adaptive ODE integration honours its tolerance and output grid',
  'For every smooth initial value problem adaptive integration stays within a modest multiple of the requested tolerance plus the error of the cubic dense output at every saved point, returns output times in order covering exactly the requested interval, and gives dense output consistent with the steps. Integrating a system forward and then its time-reversed system returns to the start; a step limit that is exceeded, an interval that cannot be integrated and a failure to meet the tolerance are reported.',
  'all smooth systems, tolerances, intervals and output spacings', why('all systems and tolerances', 'error estimate, dense output or last step'), ['mml/algorithms/ODESolvers/ODESolverAdaptive.h', 'mml/algorithms/ODESolvers/ODESteppers.h'], [('embedded error control', 'mml/algorithms/ODESolvers/ODESteppers.h')],
  src=['C32.cpp', 'C32b.cpp'], rule='a tree of order at least 4 / at least 5 accepted steps / at least 4 output times')
P('C33', 'Event detection finds every crossing once, in order and direction',
  'Each event function crossing of the requested direction along a trajectory is located to tolerance, reported once and in time order, and its action (stop, continue, restart) is performed at that time. Crossings in the other direction and tangencies are not reported.',
  'all trajectories and event functions', why('all crossings', 'direction or simultaneous events'), ['mml/algorithms/ODESolvers/ODESolverEventDetection.h', 'mml/interfaces/IODESystemWithEvents.h'], [('sign-change bracketing on steps', 'mml/algorithms/ODESolvers/ODESolverEventDetection.h')], over=('inputs', 'histories'),
  src=['C33.cpp'], rule='at least two (hybrid) / three (oscillator) events occur')
P('C34', 'Stiff and algebraic-differential integration is accurate and on the constraint',
  'Implicit methods integrate stiff linear and nonlinear systems with error matching their order at steps far above the explicit limit without instability, and differential-algebraic solvers keep algebraic constraints satisfied along the whole solution. Non-convergence is reported in the result.',
  'all stiff linear systems and index-1 systems with known solutions', why('all systems and steps', 'one coefficient or the Newton update'), ['mml/algorithms/ODESolvers/ODESolverStiff.h', 'mml/algorithms/DAESolvers', 'mml/base/DAESystem.h'], [('Newton iterations on implicit stages', 'mml/algorithms/ODESolvers/ODESolverStiff.h')],
  src=['C34.cpp', 'C34b.cpp'], rule='at least one mode with lambda h > 2, or more than five steps')
P('C35', 'Boundary value shooting satisfies both boundary conditions',
  'Whenever shooting reports convergence the returned trajectory solves the differential equation and meets every boundary condition to tolerance; for linear problems it converges from any start. Non-convergence is reported.',
  'all linear two-point problems and mildly nonlinear ones', why('all boundary conditions', 'residual indexing'), ['mml/algorithms/ODESolvers/BVPShootingMethod.h'], [('Newton on shooting residual', 'mml/algorithms/ODESolvers/BVPShootingMethod.h')],
  src=['C35.cpp'], rule='the boundary value problem is solvable (converged runs for nonlinear ones)')
P('C36', 'One-dimensional minimisation brackets and finds a true local minimum',
  'Every bracket returned satisfies the three-point minimum condition and every minimiser returns a point within tolerance of a local minimum inside the bracket with the right function value, for maxima likewise. Invalid brackets and exhausted limits are reported.',
  'all unimodal functions, brackets and tolerances', why('all functions and brackets', 'parabolic-step or ordering branches'), ['mml/algorithms/Optimization.h'], [('golden-section and parabolic steps', 'mml/algorithms/Optimization.h')],
  src=['C36.cpp'], rule='the minimum is outside the starting interval, not quadratic, or the limit is exhausted')
P('C37', 'Multi-dimensional minimisers descend to a stationary point',
  'For every convex quadratic and standard smooth test function, each minimiser that reports convergence returns a point whose reported value is the function there, is no worse than the start, and is the minimum to tolerance; runs that exhaust their iterations say so, functions that are infinite or undefined outside a region never make a search hang or converge at an undefined value, and bad tolerances, limits and starts are rejected.',
  'all convex quadratics, dimensions and starting points', why('all functions and starts', 'one line search or update formula'), ['mml/algorithms/OptimizationMultidim.h'], [('line searches, simplex and quasi-Newton updates', 'mml/algorithms/OptimizationMultidim.h')],
  src=['C37.cpp', 'C37b.cpp'], rule='the run converged in at least two dimensions, ran out of iterations, or the function is undefined outside a region')
P('C38', 'Fourier transforms are the discrete Fourier transform and its inverse',
  'Fast, real and cosine/sine transforms of any permitted length equal the direct sum, invert exactly, preserve energy and satisfy convolution and shift theorems, also through the real, cosine and sine variants. Unsupported lengths are rejected, and windows have their documented symmetry and values.',
  'all lengths and signals', why('all lengths', 'one butterfly or scaling'), ['mml/algorithms/Fourier.h', 'mml/algorithms/FourierRealFFT.h', 'mml/algorithms/FourierWindowing.h'], [('bit reversal and butterflies', 'mml/algorithms/Fourier.h')],
  src=['C38.cpp', 'C38b.cpp'], rule='transform of a size above the trivial ones, a window of more than one sample')
P('C39', 'Curve fits are least-squares optimal',
  'Linear, polynomial, general-basis and transformed fits return coefficients whose residual is orthogonal to the model space, reproduce exact data and report residual statistics that match the definitions. Under-determined or mismatched data is rejected.',
  'all data sets, degrees and bases', why('all data sets', 'one normal-equation term'), ['mml/algorithms/CurveFitting.h'], [('normal equations/QR', 'mml/algorithms/CurveFitting.h')],
  src=['C39.cpp'], rule='more data than coefficients (overdetermined fit)')
P('C40', 'Descriptive statistics equal their definitions',
  'Means, variances, moments, medians, percentiles, modes, covariance and correlation, ranks and robust statistics equal direct evaluation of the definitions on every data set and transform correctly under shift, scale and permutation. Insufficient or invalid data is rejected.',
  'all data sets, including ties, single elements and large offsets', why('all data sets', 'ties, even/odd length, or one denominator'), ['mml/algorithms/Statistics/StatisticsBase.h', 'mml/algorithms/Statistics.h', 'mml/algorithms/Statistics/StatisticsRank.h'], [('two-pass sums, sorting', 'mml/algorithms/Statistics.h')],
  src=['C40.cpp', 'C40b.cpp'], rule='more than two observations that are not all equal')
P('C41', 'Probability distributions are consistent across density, CDF and quantile',
  'For every parameter choice the density is the derivative of the distribution function, the distribution function is monotone from 0 to 1, the quantile is its inverse, and mean and variance are those of the density. Invalid parameters and probabilities are rejected.',
  'all distributions, parameters and arguments', why('all parameters', 'tails or one constant'), ['mml/algorithms/Statistics/Distributions.h'], [('special-function evaluations', 'mml/algorithms/Statistics/Distributions.h')],
  src=['C41.cpp'], rule='random parameters (small integers, lattice and log-uniform) and arguments over body, tails and support ends for every distribution, compared with Boost.Math; non-trivial: interior argument and tail probability')
P('C42', 'Hypothesis tests and confidence intervals report correct statistics',
  'Every test statistic, degrees of freedom, p-value, critical value and decision, and every confidence bound, equals direct evaluation of its definition with an independent distribution function, and p-values move monotonically with the evidence. Invalid samples and levels are rejected.',
  'all samples, alternatives and levels', why('all samples', 'one tail or degree of freedom'), ['mml/algorithms/Statistics/StatisticsHypothesis.h', 'mml/algorithms/Statistics/StatisticsConfidence.h'], [('statistic formulas', 'mml/algorithms/Statistics')],
  src=['C42.cpp', 'C42b.cpp'], rule='random samples, tables and levels compared with long-double formulas and Boost distributions, constant samples and invalid inputs; non-trivial: unequal sizes, non-square tables or more than two values/groups')
P('C43', 'Convex hulls are convex, contain all points and use only input points',
  'The planar and spatial hull of any finite point set at any scale is convex, consistently outward-oriented, closed, made only of input points, and contains every input point; the planar hull lists only extreme points. Duplicate, collinear and coplanar sets give the hull of lower dimension; volume, area and containment queries match the faces.',
  'all finite point sets, including lattices, duplicates and collinear sets', why('all point sets', 'collinear or duplicate points'), ['mml/algorithms/CompGeometry/ConvexHull.h', 'mml/algorithms/CompGeometry/ConvexHull3D.h'], [('orientation predicates', 'mml/algorithms/CompGeometry')],
  src=['C43.cpp'], rule='random and lattice point sets (duplicates, collinear, coplanar, cocircular, any scale); non-trivial: full-dimensional set with more distinct points than a simplex')
P('C44', 'Triangulations and Voronoi diagrams obey empty-circle and nearest-site laws',
  'Triangulating a point set or simple polygon covers it exactly once with counter-clockwise triangles on input vertices; Delaunay circumcircles contain no other site. Voronoi cells partition the plane by nearest site and are dual to the triangulation.',
  'all point sets and simple polygons', why('all point sets', 'cocircular or collinear sites'), ['mml/algorithms/CompGeometry/Triangulation.h', 'mml/algorithms/CompGeometry/VoronoiDiagram.h'], [('incremental insertion with in-circle test; ear clipping', 'mml/algorithms/CompGeometry')],
  src=['C44.cpp'], rule='random and lattice sites (duplicates, collinear, cocircular, clustered, any scale) and simple polygons (star-shaped, histogram, untangled lattice); non-trivial: more than three sites or a reflex vertex')
P('C45', 'Spatial-tree queries return exactly what brute force returns',
  'Nearest, k-nearest, radius and range queries on the spatial tree give the same result as scanning every point, for any point set including duplicates, any query and any k.',
  'all point sets, queries, radii and k', why('all point sets', 'pruning at equal coordinates'), ['mml/algorithms/CompGeometry/KDTree.h'], [('median split with plane pruning', 'mml/algorithms/CompGeometry/KDTree.h')],
  src=['C45.cpp'], rule='a tree with more than three leaves was queried at least once')
P('C46', 'Polygon, segment and circle algorithms agree with exact geometry',
  'Segment and circle intersections, polygon clipping (convex subjects; boolean operations on convex polygons), and smallest enclosing circles, closest pairs and line, plane and triangle intersections agree with exact evaluation for every configuration. The smallest enclosing circle contains all points and is determined by points on its boundary.',
  'all configurations including touching, collinear and contained ones', why('all configurations', 'touching or collinear cases'), ['mml/algorithms/CompGeometry/PolygonOps.h', 'mml/algorithms/CompGeometry/Intersections.h', 'mml/algorithms/CompGeometry/Circles.h'], [('orientation tests; incremental circle', 'mml/algorithms/CompGeometry')],
  src=['C46.cpp'], rule='non-degenerate configuration: proper segments, partial overlap when clipping, more than two points for circles, more than four for pairs')
P('C47', 'Graph structure and graph algorithms agree with exhaustive search',
  'Under any history of vertex additions and edge additions, removals and weight changes a graph reports exactly the current edges, degrees and adjacency; shortest paths, spanning trees, traversal, connectivity, topological ordering and cycle results agree with exhaustive reference computation. Negative cycles, missing vertices and unreachable targets are reported.',
  'all small graphs, weights and edit histories', why('all graphs', 'directedness, parallel edges, or negative weights'), ['mml/base/Graph.h', 'mml/algorithms/GraphAlgorithms.h'], [('adjacency lists; priority queues', 'mml/algorithms/GraphAlgorithms.h')], over=('inputs', 'histories'),
  src=['C47.cpp'], rule='graph with more than two edges and an existing start vertex, or an edit history ending with several edges')
P('C48', 'Graph spectra match the graph they come from',
  'Adjacency, degree and Laplacian matrices are those of the graph, and spectral and structural results (Laplacian spectrum, component count, algebraic connectivity and Fiedler vector, degree, closeness, betweenness and eigenvector centrality, PageRank, density, clustering, distances) agree with direct combinatorial or dense-matrix computation.',
  'all small graphs', why('all graphs', 'weights, isolated vertices or disconnected graphs'), ['mml/algorithms/GraphSpectral.h'], [('eigen-decomposition of the Laplacian', 'mml/algorithms/GraphSpectral.h')],
  src=['C48.cpp'], rule='graph with at least two edges')
P('C49', 'Function analysis reports only genuine features',
  'Reported roots, extrema, inflection points, continuity, monotonicity and integral comparisons of a function on an interval agree with the known features of that function: none is missed at the sampling resolution (jumps: when they dominate the smooth variation over one step) and none invented.',
  'all polynomials with known features and piecewise functions', why('all functions', 'endpoints of the interval'), ['mml/algorithms/FunctionsAnalyzer.h'], [('sampling and sign-change refinement', 'mml/algorithms/FunctionsAnalyzer.h')],
  src=['C49.cpp'], rule='at least two features, or any piecewise function or pole')
P('C50', 'Field analysis and field-line tracing follow the field',
  'Traced field lines are tangent to the field, stay inside their bounds and keep conserved quantities; analysers classify irrotational, solenoidal, conservative and harmonic fields, critical points and circulation correctly.',
  'all polynomial fields and seed points', why('all fields', 'step direction or termination'), ['mml/algorithms/FieldLineTracer.h', 'mml/algorithms/FieldAnalyzers.h'], [('RK tracing with termination tests', 'mml/algorithms/FieldLineTracer.h')],
  src=['C50.cpp'], rule='polynomial field with several terms; traced line longer than 5 points')
P('C51', 'Dynamical systems expose true derivatives, invariants and analysis results',
  'Each built-in continuous system has the published right-hand side, a Jacobian equal to its derivative, and conserves its declared invariants; fixed points found are true zeros with correct stability class, and finite-time Lyapunov exponents, Poincare sections and parameter sweeps agree with direct integration of the flow and its tangent dynamics.',
  'all states and parameters of the built-in systems', why('all states', 'one Jacobian entry or classification'), ['mml/systems/ContinuousSystems.h', 'mml/systems/DynamicalSystemAnalyzer.h', 'mml/systems/DynamicalSystemAnalyzers.h', 'mml/systems/DynamicalSystemBase.h'], [('analytic Jacobians; Newton', 'mml/systems')],
  src=['C51.cpp', 'C51b.cpp'], rule='more than one state variable / output / known fixed point')
P('C52', 'The linear-system facade is consistent with its underlying solvers',
  'For every matrix, the linear-system facade solves consistent systems, reports rank, null space, condition, determinant and structure truthfully, picks a solver valid for the matrix, and its cached results equal fresh ones for any call order.',
  'all matrices, right-hand sides and call orders', why('all call orders', 'caching or method choice'), ['mml/systems/LinearSystem.h'], [('lazy cached decompositions', 'mml/systems/LinearSystem.h')], over=('inputs', 'histories'),
  src=['C52.cpp'], rule='matrix of more than one row with non-zero rank; history of more than 4 queries')
P('C53', 'Discrete maps iterate their formula and report true cycles and exponents',
  'Every built-in map equals its formula, its derivative or Jacobian is exact, orbits are repeated application, fixed points and cycles of the formulas are genuine orbits of the map and Lyapunov exponents agree with the orbit average of the log-derivative.',
  'all parameters and states', why('all parameters', 'one Jacobian entry'), ['mml/systems/DiscreteMaps.h'], [('map formulas', 'mml/systems/DiscreteMaps.h')],
  src=['C53.cpp'], rule='every generated map and state; orbits longer than two points')
# ---------------------------------------------------------------- tools
P('C54', 'The thread pool runs every task exactly once and waits for all of them',
  'Under any interleaving of submissions, waits, nested submissions, throwing tasks and shutdown, each accepted task runs exactly once, waiting (from outside the pool) returns only when all submitted work is done, exceptions reach the caller and destruction neither hangs nor drops accepted tasks.',
  'all task graphs, thread counts and schedules', why('schedules', 'the wait condition or shutdown'), ['mml/tools/ThreadPool.h'], [('mutex/condition-variable queue', 'mml/tools/ThreadPool.h')], over=('schedules', 'histories'),
  src=['C54.cpp'], rule='a case is non-trivial when several tasks take part (at least two throwing ones for the failure law)', san='tsan', scale=4)
P('C55', 'Saved vectors, matrices and visualisation files read back unchanged',
  'Every vector or matrix written in text, CSV or binary form loads back equal (bit-exact in binary, to printed precision in text); missing files, binary files truncated or corrupted in header or size, and malformed text are rejected with the target unchanged. Serialised curves, surfaces, fields and simulations contain exactly the sampled values in the documented format and report write failures.',
  'all values, sizes and byte-level corruptions', why('all files', 'header or precision handling'), ['mml/tools/serializer', 'mml/base/Vector/Vector.h', 'mml/base/Matrix/Matrix.h'], [('header magic and size checks', 'mml/tools/serializer/MatrixIO.h')], over=('inputs', 'fault_sequences'),
  src=['C55.cpp'], rule='a case is non-trivial when the object has elements, the file was really changed, or a fault was injected')
P('C56', 'Data loading parses every well-formed file and cleanly rejects the rest',
  'Every CSV, TSV or JSON table, whatever its quoting (including quoted line breaks), delimiters, byte-order mark, line endings, missing-value markers, ragged rows, key order, absent keys, escapes and number spellings, loads to exactly the values it denotes (surrounding whitespace trimmed), each in its row and column, with the column type inferred as documented (at least 90 % of the present values; mixed integers and reals are real). Malformed JSON and unterminated quoted fields are rejected with DataError (or a failed LoadResult), strict schemas reject ragged rows, and any other byte sequence gives an error or a consistent table, never a crash or hang. Head, Tail, Sample, FilterRows, SelectColumns and typed column access return exactly the rows and values asked for.',
  'all tables and all byte strings', why('all byte strings', 'quoting, escapes or line endings'), ['mml/tools/data_loader', 'mml/tools/DataLoader.h'], [('hand-written parsers', 'mml/tools/data_loader')],
  src=['C56.cpp'], rule='a table of at least two rows and two columns (or the specific malformed/ragged construct) is present', fuzz=150000)
P('C57', 'Formatted tables and printed values keep the data they show',
  'Console tables of any shape, formats, widths (fixed or automatic), alignments and borders show every cell, formatted as asked, in its row and column, padded by characters rather than bytes; CSV, TSV, Markdown, HTML and LaTeX exports read back to exactly the cells and names they were given, whatever characters these contain and whatever state the target stream is in; printing leaves the stream flags as they were and reports files that cannot be written. Printed vectors, matrices and polynomials read back to the values they show within the printed precision, with values at or below a zero threshold shown as 0 and NaN never hidden.',
  'all table shapes, contents and formats', why('all contents', 'escaping or width handling'), ['mml/tools/ConsolePrinter.h', 'mml/base/MatrixPrintFormat.h'], [('column formatting', 'mml/tools/ConsolePrinter.h')],
  src=['C57.cpp'], rule='the table or object has at least one data cell (several elements for matrices and vectors)', scale=8)
P('C58', 'Curves and surfaces report their true differential geometry',
  'Tangent, normal, binormal, curvature, torsion, arc length, first and second fundamental forms and Gaussian and mean curvature of every provided curve and surface agree with the exact differentials of the documented parametrisation to the accuracy of the numerical derivatives (parameters of moderate size; points where speed or surface normal is not small), and frames are orthonormal. Curvature signs follow the returned normal; the Epitrochoid ignores its radius as in its documented equation; the polar circle jumps at the branch cut of atan2.',
  'all curves, surfaces, parameters and points', why('all parameters', 'one derivative or sign'), ['mml/core/Curves.h', 'mml/core/Surfaces.h'], [('numerical derivatives of the parametrisation', 'mml/core')],
  src=['C58.cpp', 'C58b.cpp'], rule='the point is regular (speed, or normal length, not small against the local size of the derivatives) and the frame is determined', scale=10)
P('C59', 'Function wrappers and standard functions evaluate what they wrap',
  'Function objects built from pointers, lambdas and adapters, partial/component projections and function algebra evaluate exactly as the wrapped callable, Taylor expansions about any point reproduce the polynomial part of the function, and standard functions (elementary real and complex, special functions, factorials) agree with independent high-precision evaluation within the accuracy of the underlying standard library.',
  'all wrapped callables and arguments', why('all arguments', 'one adapter index'), ['mml/base/Function.h', 'mml/core/FunctionHelpers.h', 'mml/base/StandardFunctions.h', 'mml/interfaces/IFunction.h'], [('std::function and template adapters', 'mml/base/Function.h')],
  src=['C59.cpp'], rule='the value is determined (finite, inside the domain) and, for expression trees, more than one node is built', scale=20)
P('C60', 'Concurrent use within the documented rules gives the sequential results',
  'As docs/THREADING.md promises: concurrent const reads of one shared object (matrices, vectors, polynomials, interpolated functions, Chebyshev approximations, coordinate transformations) and concurrent calls of solvers and algorithms on separate data return bit-identical results to the same calls made one after another, without data races; the Defaults settings and the random stream belong to the calling thread. Objects that cache lazily (LinearSystem, Triangle2D) and functions using std::lgamma are not listed there and not claimed.',
  'all interleavings of documented-safe operations', why('all schedules and inputs', 'one hidden mutable or static work variable'), ['docs/THREADING.md', 'mml/base/InterpolatedFunctions/InterpolatedRealFunction.h', 'mml/MMLBase.h', 'mml/base/Random.h'], [('mutable members and thread_local contexts', 'mml/MMLBase.h')],
  src=['C60.cpp'], rule='at least two threads run the same calls at the same time', san='tsan', scale=12)
P('C61', 'Algorithms stay honest when the functions they are given misbehave',
  'For callbacks that return NaN or infinities (everywhere, on a region or on some calls), overflow, are constant, jump, have a pole or throw: every root finder, integrator, minimiser, adaptive or stiff ODE solver, and (for matrices with NaN, infinite or huge entries) every eigenvalue solver ends after a bounded amount of work, never presents a non-finite answer as converged or successful, never swallows an exception of the callback, and its status and error message agree with its converged flag. Open Romberg rules on finite but non-integrable functions and plain adaptive integration creeping towards a barrier in the state (no step limit documented) are not covered by the work bound.',
  'all misbehaving callbacks, algorithms and configurations', why('all callbacks and fault positions', 'one comparison that is false for NaN'), ['docs/ERROR_HANDLING.md', 'mml/algorithms/RootFinding.h', 'mml/core/Integration.h', 'mml/algorithms/Optimization.h', 'mml/algorithms/OptimizationMultidim.h', 'mml/algorithms/ODESolvers/ODESteppers.h', 'mml/algorithms/EigenSystemSolvers.h'], [('convergence tests', 'mml/algorithms')],
  src=['C61.cpp'], rule='the callback misbehaves')
