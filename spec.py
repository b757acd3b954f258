"""The properties, as data: gen.py writes properties.jsonl and MANIFEST.json from it.
run.py takes the non-triviality rule and the assumptions of the evidence files from it."""

P = []


def prop(id, title, statement, over, text, why, files, mech, rule, assumptions=(), note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  rule=rule, assumptions=list(assumptions), note=note, observe=list(observe)))


prop("C01", "Real elementary functions compute the mathematical function",
     "For every real argument in its domain, each elementary function (roots, integer and real powers, exponentials, logarithms, trigonometric and hyperbolic functions and their inverses, rounding, ordering and clamping) returns the value of the mathematical function within rounding error, in the quadrant, sign and branch that its documentation states. "
     "Large arguments saturate or overflow as the limit of the function does, an argument that is not a number gives NaN, and every call terminates. "
     "This holds both with the hardware instructions and with the portable algorithms that replace them when they are disabled.",
     ["inputs", "configurations"], "all finite doubles by magnitude and sign, their infinities and NaN; both implementations (hardware, portable)",
     "the tests compare a few thousand points of fixed intervals, which never leave the first quadrant, the neighbourhood of the origin or the hardware build",
     ["src/core/real_analysis.h", "src/core/bit_op.h", "src/core/constants.h"],
     [("argument reduction of exp, log2, sin, cos, tan", "src/core/real_analysis.h"), ("Newton iterations of sqrt, cbrt, root", "src/core/real_analysis.h"), ("quadrant selection of atan2", "src/core/real_analysis.h")],
     "arguments are drawn by magnitude over the whole exponent range as well as uniformly near the points where an algorithm switches; a case is non-trivial when the argument is neither 0, 1 nor an infinity",
     ["the reference is the C library in long double", "relative error bounds are 1e-12 or looser (1e-8 where the portable algorithm documents a coarser tolerance)"])

prop("C02", "Integer, bit-level, combinatorial and rational operations are exact",
     "Integer roots, logarithms and powers of two, factorials, binomial coefficients, 128-bit multiplication, rotations, bit reversal and fractions return the exact integer or rational result whenever it is representable, for every argument. "
     "Reordering by bit reversal is an involution that loses no element, and fractions obey the field axioms.",
     ["inputs"], "all 64-bit integers, with emphasis on powers of two and of three, their neighbours and the ends of the range",
     "the tests check a handful of small numbers; the failures of such code are at the ends of the range and at exact powers",
     ["src/core/real_analysis.h", "src/core/bit_op.h", "src/core/ratio.h"],
     [("bit scanning", "src/core/bit_op.h"), ("cross multiplication of fractions", "src/core/ratio.h")],
     "integers are drawn by bit length and next to powers; a case is non-trivial when the argument is above 1 and the result is not the identity",
     ["the reference is 128-bit integer arithmetic"])

prop("C03", "Gamma and Beta functions agree with their definition",
     "The Gamma function of natural, half-integer, positive and negative real arguments, its logarithm and the Beta function return the mathematical value, including the sign between consecutive negative integers, and are not finite at the poles. "
     "The specialised natural and half-integer forms agree with the general one wherever both apply.",
     ["inputs", "configurations"], "positive and negative arguments up to the overflow of the function; both implementations",
     "the tests sample the positive axis only, where reflection and overflow do not occur",
     ["src/core/special.h"], [("Lanczos and Stirling approximations, reflection formula", "src/core/special.h")],
     "arguments on both sides of 0 and by magnitude; non-trivial when the argument is not a small natural number",
     ["the reference is tgammal and lgammal"])

prop("C04", "Vectors form an inner product space, whatever their storage",
     "Vector sum, difference, scaling, linear combination, inner and cross products, norms and normalisation compute the componentwise definition for every size and element type, in place, into a destination or returning a new vector. "
     "Vectors of fixed and of run-time size give the same values for the same operation, also when mixed, and operands that are not written to are left unchanged.",
     ["inputs", "programs"], "sizes 1 to 12, real and complex elements, fixed, run-time and mixed storage, all forms of each operation",
     "the tests use one or two sizes and one storage; most overloads are templates that no test instantiates",
     ["src/algebra/vec.h", "src/algebra/algebra.h", "src/algebra/algebra_types.h"],
     [("element loops of the vector operations", "src/algebra/algebra.h"), ("operators of the two vector types", "src/algebra/vec.h")],
     "sizes and elements are generated; non-trivial when the size is above 1 and no operand is null",
     ["componentwise reference in long double; address and bounds sanitizers are on"])

prop("C05", "Matrices form the algebra of linear maps for every shape and layout",
     "Matrix sum, product, transposition, application to a vector, traces, row and column operations, shape changes and predicates agree with their definition on the entries, for square and rectangular matrices of fixed and run-time size and with both memory layouts. "
     "Products are compatible with composition: applying the product of two matrices to a vector is applying one after the other, and transposition reverses products. "
     "Resizing keeps the entries in the common region.",
     ["inputs", "programs", "configurations"], "shapes 1 to 6 by 1 to 6, real and complex entries, fixed, run-time and mixed storage, both layouts",
     "the tests use square matrices of one size, for which exchanged row and column indices go unnoticed",
     ["src/algebra/mat.h", "src/algebra/algebra.h"],
     [("index arithmetic of element access", "src/algebra/mat.h"), ("product and transform loops", "src/algebra/algebra.h")],
     "shapes are generated independently of each other; non-trivial when a matrix is not 1 by 1 and not null",
     ["entrywise reference in long double; address and bounds sanitizers are on"])

prop("C06", "Linear systems, inverses, determinants and factorisations are correct",
     "For every well conditioned square matrix, solving a system gives a vector that satisfies it, the inverse is a two-sided inverse, the determinant is the alternating multilinear form of the rows, and the factors of the LU and Cholesky decompositions have the stated shape and multiply back to the matrix. "
     "A zero or tiny leading element makes no difference, and matrices that are singular, not symmetric or not positive definite are reported where that is documented. "
     "The arguments that are not documented as overwritten are left as they were.",
     ["inputs"], "sizes 1 to 7, real and complex, invertible matrices with condition number up to 1e5, exactly singular matrices",
     "the tests draw dense random matrices, whose leading elements are never zero",
     ["src/algebra/algebra.h"], [("row exchange during elimination", "src/algebra/algebra.h"), ("forward and backward substitution", "src/algebra/algebra.h")],
     "matrices with many zeros, small integers and random reals; non-trivial when the size is above 1",
     ["residuals are judged relative to the condition number computed by an independent elimination in long double"])

prop("C07", "Eigensolvers return eigenpairs",
     "For every diagonalisable matrix with a separated spectrum, the eigensolvers return a value and a vector that satisfy the eigenvalue equation, and it is the eigenvalue they promise: the largest in modulus, the one closest to the given shift, or the one the Rayleigh iteration converges to. "
     "The Rayleigh quotient of an eigenvector is its eigenvalue and lies between the extreme eigenvalues for symmetric matrices.",
     ["inputs"], "matrices of size 2 to 5 built from a chosen spectrum and a random similarity or rotation",
     "the tests use a few matrices and check the residual only, not which eigenvalue was found",
     ["src/algebra/algebra.h"], [("power, inverse and Rayleigh iterations", "src/algebra/algebra.h")],
     "spectra and similarities are generated; non-trivial when the size is above 1",
     ["convergence is required only for eigenvalue ratios below 0.8"])

prop("C08", "Geometric transformations and quaternions act as documented",
     "Rotation matrices rotate by the given angle around the given axis in the right-handed sense and preserve lengths, translations add their vector, projections map the view volume to the unit cube, and the camera transformation brings the camera to the origin and the target straight ahead, all acting on column vectors, in plain and in homogeneous coordinates. "
     "Quaternions form a division algebra with multiplicative norm, and the rotation they describe agrees with the rotation matrices and composes with their product.",
     ["inputs", "programs"], "all angles, axes, view volumes and camera positions; matrices of fixed and run-time size, 3 by 3 and larger",
     "no test calls these functions",
     ["src/algebra/transform.h", "src/complex/quat.h", "src/complex/complex.h"],
     [("matrix entries of each transformation", "src/algebra/transform.h"), ("Hamilton product", "src/complex/quat.h")],
     "angles, axes, points and volumes are generated, with integer and axis-aligned values among them; non-trivial when the angle or the vector is not null",
     ["the reference is Rodrigues' formula and the definition of each projection, in long double"])

prop("C09", "Norms and distances satisfy their definitions and axioms",
     "Each norm and distance returns the value of its definition for real and complex vectors of any size; norms are homogeneous and subadditive, and distances are symmetric, vanish exactly for equal vectors and satisfy the triangle inequality where the name promises a metric.",
     ["inputs"], "sizes 1 to 8, magnitudes 1e-3 to 1e3, null components, equal vectors, real and complex elements, fixed and run-time size",
     "no test compares distances with their definition on more than one vector",
     ["src/algebra/distance.h", "src/algebra/algebra.h"],
     [("sums over components", "src/algebra/distance.h")],
     "vectors with integer, repeated and null components are frequent; non-trivial when the vectors differ and the size is above 1",
     ["tolerance 1e-7 relative to the 1-norm, from the accuracy of the n-th root"])

prop("C10", "Complex numbers, complex functions and phasors form one consistent field",
     "Complex arithmetic obeys the field operations in every mixed, in-place and reversed form, division by zero is reported as not a number, and complex functions return the principal value, agreeing with the real functions on the real axis and inverting each other where they should. "
     "Phasors represent the same numbers in polar form: every operation on them agrees with the one on complex numbers and keeps the modulus non-negative.",
     ["inputs"], "the plane within |z| < 6 including both axes, the negative real axis and small integers",
     "the tests evaluate functions at generic points of the first quadrant or check only identities that a wrong branch also satisfies",
     ["src/complex/complex.h", "src/complex/complex_analysis.h", "src/complex/phasor.h"],
     [("branch selection in sqrt, ln and the inverse functions", "src/complex/complex_analysis.h"), ("phase and modulus arithmetic", "src/complex/phasor.h")],
     "a third of the points lie on an axis or a lattice; non-trivial when the imaginary part is not null",
     ["the reference is std::complex<long double>; branch cuts themselves are excluded except the negative real axis of sqrt and ln"])

prop("C11", "First-order automatic differentiation computes exact derivatives",
     "For every differentiable expression built from arithmetic, in every form of each operator, and the elementary functions, evaluating it on dual or multidual numbers gives its value and its exact partial derivatives, for fixed and run-time numbers of variables and with real constants mixed in. "
     "The gradient, divergence, Jacobian, curl, directional derivative and Poisson bracket operators return the corresponding combinations of partial derivatives.",
     ["inputs", "programs"], "straight-line expressions of up to 9 operations in 3 variables, at points of the domain; every single operation and function with arbitrary tangents",
     "the tests differentiate a few fixed functions and never use the in-place operators",
     ["src/autodiff/dual.h", "src/autodiff/dual_functions.h", "src/autodiff/multidual.h", "src/autodiff/multidual_functions.h", "src/autodiff/autodiff.h"],
     [("product and chain rule of each operation", "src/autodiff/dual_functions.h"), ("seeding with the canonical basis", "src/autodiff/autodiff.h")],
     "random programs over registers, kept inside the domain by the reference; non-trivial when the program has at least two operations or the tangent is not null",
     ["the reference is an independent second-order jet arithmetic in long double", "arcs are excluded from composed programs because their 1e-8 accuracy is amplified; they are checked one by one"])

prop("C12", "Second-order automatic differentiation computes exact second derivatives",
     "For every twice differentiable expression, evaluating it on second-order dual numbers gives its value, first and second derivative, whatever first and second derivative the argument carries. "
     "The second derivative and Laplacian operators return the corresponding sums of second derivatives.",
     ["inputs", "programs"], "straight-line expressions of up to 8 operations in 3 variables; every single operation and function with arbitrary first and second parts",
     "the tests use the second-order type on two functions with a null second part",
     ["src/autodiff/dual2.h", "src/autodiff/dual2_functions.h", "src/autodiff/autodiff.h"],
     [("second-order chain rule of each function", "src/autodiff/dual2_functions.h")],
     "as C11; non-trivial when the argument carries a derivative",
     ["the reference is an independent second-order jet arithmetic in long double"])

prop("C13", "Polynomials form a ring with division, calculus and evaluation",
     "For polynomials with any number of coefficients, including none and trailing zeros, sum, difference, product, scaling, exact order, trimming and equality act on the mathematical polynomial, and evaluation (at real and complex points) is a homomorphism. "
     "Dividing by a non-null polynomial returns the unique Euclidean quotient, derivatives, primitives and definite integrals are the exact ones, and operands are not modified unless the operation is in place. "
     "The roots of a quadratic are found for every sign of the discriminant without cancellation, and a polynomial built from its roots has exactly those roots.",
     ["inputs"], "coefficient lists of length 0 to 9, real, integer and complex, with operands of different length and trailing zeros",
     "the tests touch polynomials only through quadrature and differentiation; operands of unequal length, empty ones and division are never exercised",
     ["src/polynomial/polynomial.h", "src/calculus/deriv.h", "src/calculus/integral.h"],
     [("coefficient loops of the ring operations", "src/polynomial/polynomial.h"), ("long division", "src/polynomial/polynomial.h")],
     "coefficient lists are generated by length, a quarter with trailing zeros; non-trivial when both operands are longer than a constant",
     ["reference coefficient arithmetic in long double"])

prop("C14", "Orthogonal polynomials and Gaussian quadrature rules are exact",
     "The Legendre, associated Legendre, Laguerre, generalised Laguerre, Hermite and Chebyshev families have the values, degrees and normalisation of their definition for every order, degree and sign. "
     "The computed roots are all the distinct roots inside the interval and the weights are positive, and quadrature with n nodes, tabulated or computed, over any interval integrates every polynomial of degree up to 2n - 1 exactly with respect to its weight.",
     ["inputs"], "orders 0 to 25 (roots up to 20), all degrees m from -l to l, random polynomials up to the degree of exactness, intervals in any order",
     "the tests integrate one function with the 16-node tables; the other tables, computed nodes and negative orders are never used",
     ["src/polynomial/orthogonal.h", "src/calculus/integral.h", "src/calculus/gauss.h"],
     [("three-term recurrences", "src/polynomial/orthogonal.h"), ("initial guesses of the node search", "src/polynomial/orthogonal.h"), ("tables of nodes and weights", "src/calculus/gauss.h")],
     "orders, arguments and integrand coefficients are generated; non-trivial when the order is above 1 and the integrand is not constant",
     ["reference recurrences in long double; exactness judged to 1e-6 relative to the sum of the moduli of the terms"])

prop("C15", "Numerical derivatives, integrals and Taylor expansions have their stated order",
     "Each finite difference formula and each quadrature rule is exact on the polynomials its order promises, for every step size, number of steps and orientation of the interval, and on smooth functions its error stays within the bound of its order. "
     "Integration to a tolerance returns a value within that tolerance, integrals up to infinity converge or are reported, and integration is additive over intervals. "
     "Linear and quadratic Taylor expansions have the value and derivatives of the function at any centre.",
     ["inputs", "programs"], "random polynomials up to the degree of exactness, exponential and trigonometric functions, random expression programs, steps from 1e-4 to 0.5, 1 to 100 subintervals, any interval orientation",
     "the tests integrate one function with the default number of steps over ordered intervals, which hides odd step counts, reversed intervals and wrong expansion centres",
     ["src/calculus/deriv.h", "src/calculus/integral.h", "src/calculus/taylor.h"],
     [("Richardson extrapolation", "src/calculus/integral.h"), ("difference quotients", "src/calculus/deriv.h")],
     "integrands, intervals and steps are generated; non-trivial when the integrand is not linear and the interval is not empty",
     ["error constants of the Euler-Maclaurin formula; rounding is allowed 1e-13 relative to the integrand"])

prop("C16", "Solvers of differential equations follow their method over the interval",
     "Every single step of the Euler, midpoint, Heun, Runge-Kutta, Kutta 3/8 and Adams-Bashforth methods computes the formula of the method for every vector field, state, time and step size, scalar or vector. "
     "A solution starts at the initial time and state, advances by the given step with a shorter last step when needed, ends at the final time, and approximates the exact solution with an error of the order of the method. "
     "An interval whose ends are exchanged is reported.",
     ["inputs", "histories"], "random linear, forced and non-linear vector fields of dimension 1 to 5, steps from 1e-4 to 0.5, intervals which are and are not a multiple of the step, scalar, fixed and run-time state",
     "the tests solve one equation per solver with a step that divides the interval; no test calls the multi-step methods",
     ["src/calculus/ode.h"],
     [("stage coefficients of each method", "src/calculus/ode.h"), ("number of steps and length of the last one", "src/calculus/ode.h")],
     "fields, states, steps and intervals are generated; non-trivial when the dimension is above 1 and there is more than one step",
     ["reference Butcher tableaux evaluated in long double; trajectories compared to 1e-8"])

prop("C17", "Root finders return a root to the requested tolerance or report failure",
     "Given a bracket with a sign change, bisection and the ITP method return a point within the tolerance of the sign change without evaluating the function outside the bracket, whatever the function, its monotonicity and the size of the bracket; an invalid bracket or missing convergence gives NaN and an error. "
     "Started close to a simple root (or exactly at it), the Newton, Halley, Chebyshev, Ostrowski, Jarrat and Steffensen methods return it, with given or automatic derivatives and over the complex numbers, and none of them returns a number when the function has no root. "
     "Searching an interval or a polynomial returns all the sign changes that the grid separates and nothing else.",
     ["inputs"], "smooth, flat, steep, broken and discontinuous functions, brackets from 1e-11 to 16 wide, tolerances from 1e-12 to 1e-2, random polynomials with simple real and complex roots, grids of 1 to 30 cells",
     "the tests look for one root of one function from one start, with the default tolerance",
     ["src/optimization/roots.h"],
     [("update of the bracket", "src/optimization/roots.h"), ("stopping rule of each iteration", "src/optimization/roots.h")],
     "functions, brackets, starts and tolerances are generated; non-trivial when the bracket is wider than the tolerance or the function is not linear",
     ["open methods are started where |f''| times the distance is below a tenth of |f'|"])

prop("C18", "Interpolation passes through its data and has the smoothness it promises",
     "Linear, spherical and sigmoid interpolation and remapping have the value of their formula for every pair of ends in any order, and a Bezier curve of any number of points is the Bernstein combination of them and leaves them unchanged. "
     "The Lagrange polynomial, and interpolation on a grid or on Chebyshev nodes, passes through all its points, has the least degree and reproduces polynomials. "
     "A cubic spline is the natural spline of its data for any spacing, with continuous value and derivative at the knots and consistent extrapolation, and invalid data is reported.",
     ["inputs"], "2 to 12 knots with equal and unequal spacing, 1 to 8 nodes in any order, arbitrary data and sampled functions, Bezier curves of 2 to 8 points in 2 and 3 dimensions, parameters on and outside the ends",
     "the repository has no test of interpolation at all",
     ["src/interpolation/polynomial.h", "src/interpolation/splines.h"],
     [("tridiagonal solve of the spline", "src/interpolation/splines.h"), ("products of the Lagrange basis", "src/interpolation/polynomial.h")],
     "knots, data and parameters are generated; non-trivial when there are more than 3 unequally spaced knots, or more than 2 points",
     ["reference: dense solve of the natural spline system and Bernstein sums in long double; nodes at least 0.3 apart"])

prop("C19", "Optimisers return an extremum of the asked kind to tolerance or report failure",
     "Golden section search, bisection and Newton's method on the derivative return the minimum (or maximum) of a unimodal function within their tolerance without leaving the interval, and give NaN and an error for exchanged ends or for an extremum of the other kind. "
     "Gradient descent and ascent, with fixed step or linear search, end at a point whose gradient is within the given tolerance, for any number of variables, start and tolerance, and report a step of the wrong sign or missing convergence. "
     "Newton's method for systems returns a root of the system to its tolerance, or reports that none was reached.",
     ["inputs"], "six families of unimodal functions over intervals from 0.1 to 10 wide, quadratic and quartic fields of 1 to 3 variables with any orientation, tolerances from 1e-10 to 1e-1, starts at and away from the extremum",
     "the tests minimise one function with the default tolerance; fixed step descent, maximisation and linear systems with another tolerance are never called",
     ["src/optimization/extrema.h", "src/optimization/multi_extrema.h", "src/optimization/multi_roots.h"],
     [("stopping rule and sign of the step", "src/optimization/multi_extrema.h"), ("kind of the extremum", "src/optimization/extrema.h")],
     "functions, extrema, intervals, starts and tolerances are generated; non-trivial when the function is not a parabola or has several variables",
     ["strictly convex (or concave) fields with curvatures between 0.5 and 3 and steps below the stability limit"])

prop("C20", "The fast Fourier transform is the discrete Fourier transform and inverts",
     "For every sequence whose length is a power of two, including 1 and 2, the transform equals the discrete Fourier sum to rounding, the inverse equals the conjugate sum divided by the length, and applying both gives back the input. "
     "The input is left unchanged, vectors of fixed and run-time size give the same result, and any other length gives NaN and an error.",
     ["inputs"], "pulses, tones, constants, real and complex noise of length 1 to 256 with magnitudes from 1e-200 to 1e200, tones and pulses up to length 8192, all lengths from 0 to 300",
     "the tests check a round trip at one length and the transform of two ones, so a transform with the wrong sign or a permuted spectrum passes",
     ["src/signal/fft.h", "src/core/bit_op.h"],
     [("butterfly indices", "src/signal/fft.h"), ("bit reversal permutation", "src/core/bit_op.h")],
     "lengths and sequences are generated; non-trivial when the length is above 2 and the data is complex noise",
     ["reference: direct Fourier sums in long double; errors of 4e-15 (1 + log2 n) times the sum of the moduli are rounding"])

prop("C21", "Data set operations and descriptive statistics equal their definitions",
     "Sums (pairwise, compensated, over ranges, of products, quotients and squares), extremes, means, maps and concatenations of real, complex and integer data of any length equal their definitions to rounding, and the data is not modified unless asked. "
     "Mean, variance with any number of constraints, covariance, correlation, autocorrelation at any lag, skewness, kurtosis, normalised scores, propagated errors and chi squared do so too, without cancellation when the spread is small with respect to the mean. "
     "Empty data, data of unequal sizes, null errors and too few data give NaN and an error.",
     ["inputs"], "std::vector and vec of 0 to 600 elements: integers, binary data, magnitudes from 1e-4 to 1e4, offsets up to 1e7 and scales from 1e-6 to 1e6; all lags and ranges",
     "the tests evaluate a handful of means on one fixed data set",
     ["src/core/dataset.h", "src/statistics/statistics.h"],
     [("running mean and sum of squares", "src/statistics/statistics.h"), ("recursion of the pairwise sum", "src/core/dataset.h"), ("checks of size", "src/core/dataset.h")],
     "data are generated by length and shape; non-trivial when there are more than 2 data which are not all equal",
     ["reference: two-pass formulas in long double (quadruple precision for the compensated sum)"])

prop("C22", "Probability densities, likelihoods and p-values are those of the distributions",
     "Every density and probability equals its formula over its whole support, is zero outside and never negative, for every value of the parameters, including discrete distributions whose factorials exceed 64 bits; the form taking a vector of parameters agrees and reports a wrong number of them. "
     "Likelihood and log likelihood are the product and the sum over the data. "
     "The p-value of a chi squared is the upper tail of its distribution for every number of degrees of freedom below 260 and its documented Gaussian approximation above, is between 0 and 1 and decreases with chi squared.",
     ["inputs"], "16 distributions with continuous parameters, up to 150 trials, counts up to 100, up to 60 degrees of freedom; p-values for 1 to 400 degrees of freedom and chi squared from 0 to 5 times as much",
     "the tests only ask that the p-value of 0 is 1 and that others do not exceed 1",
     ["src/statistics/distributions.h", "src/statistics/statistics.h", "src/core/special.h"],
     [("normalisation of each density", "src/statistics/distributions.h"), ("regions of the p-value computation", "src/statistics/statistics.h")],
     "parameters and arguments are generated; non-trivial when the argument is inside the support",
     ["reference formulas with lgammal, expl and finite tail sums in long double; densities with real powers judged to 3e-7"])

prop("C23", "Fits are the least squares solutions; uncertainties propagate to first order",
     "For every data set with more than two points and at least two abscissae, in any units, the ordinary, weighted and through-the-origin fits are the least squares solutions with their covariance, the fit with errors on both coordinates minimises the normalised residuals, and a model reports the matching standard error, chi squared, degrees of freedom and p-value. "
     "Impossible fits are reported and give NaN in every result, and fitting a model again leaves nothing of the previous fit. "
     "The uncertainty propagated to a differentiable function is the quadratic form of its gradient with the given errors, covariance matrix or data sets.",
     ["inputs", "histories"], "3 to 60 points in units from 1e-12 to 1e9, weights over 8 orders of magnitude, std::vector and vec; functions of 1 to 5 variables of fixed and run-time size, full covariance matrices, sets of 2 to 8 measures",
     "no test of the repository fits a line or propagates an uncertainty",
     ["src/statistics/regression.h", "src/statistics/errorprop.h", "src/core/dataset.h"],
     [("normal equations", "src/statistics/regression.h"), ("fields of a model after each kind of fit", "src/statistics/regression.h"), ("quadratic form of the gradient", "src/statistics/errorprop.h")],
     "points, noise, units and weights are generated; non-trivial when the abscissae are not all equal (failures: when they are, or sizes differ)",
     ["reference: centred normal equations in long double, with a rounding bound proportional to the condition of the system; ill-conditioned sets (condition above 1e6) are not generated"])

prop("C24", "A histogram counts every value in range once and keeps exact running statistics",
     "For every history of insertions, whatever the range, the units and the number of bins, the bins contain exactly the values inside the range, each in the bin whose interval contains it with the upper extreme in the last bin, while values outside the range and NaN change nothing. "
     "Number, extremes, mean, sum of squares and variance are those of the values counted, and building from data or inserting in any order gives the same bins. "
     "Evaluation and text reproduce the counts.",
     ["inputs", "histories"], "1 to 30 bins, ranges in units from 1e-18 to 1e9, up to 200 values including bin edges, extremes, neighbours of the extremes, values outside and NaN; data all equal",
     "no test of the repository uses a histogram",
     ["src/statistics/histogram.h"],
     [("bin of a value", "src/statistics/histogram.h"), ("running mean and sum of squares", "src/statistics/histogram.h")],
     "ranges and sequences of insertions are generated; non-trivial when values fall inside and outside the range, or the data are more than 3 and not all equal",
     ["model: the list of accepted values; values within rounding of a bin edge may fall in either bin"])

prop("C25", "Random sequences follow their algorithms and are determined by the seed",
     "For every seed, state and history of calls, streams, discards, copies and new seeds, each generator gives exactly the numbers of its published algorithm, copies go on independently, and seeding again starts the same sequence as a new generator. "
     "A shuffle is a permutation determined by the generator and reaches every arrangement equally often; a wrong state and an empty set are reported. "
     "Weyl sequences are the fractional parts of the multiples of their base, in [0, 1), in any dimension and by recurrence.",
     ["inputs", "histories"], "the five generators with arbitrary 64-bit seeds and parameters (also 0 and all ones), histories of up to 30 operations, sets of up to 20 elements, Weyl indices up to 2e6",
     "the test file of the module is empty",
     ["src/pseudorandom/prng.h", "src/pseudorandom/pseudorandom.h", "src/pseudorandom/quasirandom.h", "src/core/bit_op.h"],
     [("state updates of each algorithm", "src/pseudorandom/pseudorandom.h"), ("seeding and copies", "src/pseudorandom/prng.h")],
     "generators and sequences of operations are generated; non-trivial when the history has more than 4 operations",
     ["reference generators written from the published algorithms with 128-bit arithmetic; SplitMix64 as used here takes its last output as next state"])

prop("C26", "Samplers follow their distributions and Monte Carlo integrals converge",
     "Samples of every distribution, by any of the samplers and of the Gaussian methods, follow the distribution with the given parameters, are independent, finite and inside the support even at the extremes of the underlying numbers, and depend on nothing but the state of the generator passed. "
     "Rejection methods and Metropolis steps leave the target distribution invariant, and report when they cannot find a sample. "
     "Crude, hit-or-miss, importance sampled and quasi-random integrals, in one or many variables, agree with the integral within their statistical error, and Monte Carlo uncertainties are those of the sampled function.",
     ["inputs", "histories"], "7 distributions and 4 Gaussian methods with parameters over 4 orders of magnitude, 1e5 samples for each statistical decision, scripted generators with extreme numbers; polynomial integrands in up to 3 variables with 200 to 6000 points",
     "the test file of the module is empty, and a sampler with a wrong scale looks random all the same",
     ["src/pseudorandom/sampling.h", "src/pseudorandom/montecarlo.h", "src/statistics/errorprop.h"],
     [("quantile functions and rejection loops", "src/pseudorandom/sampling.h"), ("volume factors", "src/pseudorandom/montecarlo.h")],
     "distributions, parameters and seeds are generated; non-trivial when samples are drawn (integrals: when the integrand varies)",
     ["statistical decisions use thresholds exceeded with probability below 1e-12 for each case (Kolmogorov-Smirnov 4.2, 7.5 standard deviations)", "quasi-random integrals are bounded by the variation of the integrand times a discrepancy of order log(N)/N"])

prop("C27", "Results depend on the arguments alone, whatever the threads and the history",
     "A call gives the same result, bit for bit, and reports the same errors whatever calls were made before it and whatever other calls run at the same time in other threads on their own data; no call races with another. "
     "The elementwise functions of the parallel module give exactly the elements the function itself gives, evaluating it once for each, for any number of threads, length and kind of vector and element, and leave their argument unchanged.",
     ["inputs", "histories", "schedules"], "histories of up to 12 calls and up to 4 threads of 6 calls, over a catalogue of 35 families of calls across the library; parallel functions on up to 140000 elements and 1 to 8 threads",
     "the tests call each function once, in one thread and in one order",
     ["src/algebra/parallel.h", "src/pseudorandom/sampling.h", "src/core/error.h"],
     [("loops divided among threads", "src/algebra/parallel.h"), ("functions without hidden state", "src/pseudorandom/sampling.h")],
     "calls, seeds of their arguments, histories and numbers of threads are generated; non-trivial with more than one family in the history, more than one thread, more than one element",
     ["races are detected with ThreadSanitizer where it runs on the machine; the interleavings explored are those the scheduler gives"])

prop("C28", "Failures are reported in each error configuration, and successes never",
     "A call that cannot be done sets errno to the value that corresponds to its error code and returns NaN by default, throws a math_exception carrying the code, description, function, file and line when exceptions are enabled (also setting errno unless only exceptions are asked for), and the exception is a std::exception. "
     "A call within the domain leaves errno as it was and throws nothing.",
     ["inputs", "configurations"], "about 340 kinds of failing calls with generated arguments and 34 families of successful ones, across all modules, in the three configurations; errno preset to several values",
     "the tests are compiled in the default configuration only, and look at errno in few calls",
     ["src/core/error.h", "src/core/real_analysis.h", "src/algebra/algebra.h", "src/algebra/vec.h", "src/optimization/roots.h"],
     [("TH_MATH_ERROR", "src/core/error.h"), ("math_exception", "src/core/error.h")],
     "failing and successful calls, their arguments and the previous errno are generated; every case is non-trivial",
     ["when a failing call is built on another failing call, the exception is the one of the inner call"])

prop("C29", "Text shows the values, and reading returns the numbers of the input",
     "The text of numbers, vectors, matrices, polynomials and solutions shows every component in order with the given symbols and separators, a row of a matrix on each line, and is the same through to_string, conversion and streams. "
     "Printing functions write exactly their arguments, separated by spaces, to the stream asked for. "
     "Reading returns the numbers of the lines before the terminator or the end of the input, skipping and announcing lines which are not numbers.",
     ["inputs", "histories"], "values over 24 orders of magnitude, matrices up to 20x20, inputs of up to 400 lines with decimal points or commas, empty and malformed lines, with or without terminator",
     "the module has no tests, and input that ends without the terminator is not sampled",
     ["src/utility.h", "src/algebra/vec.h", "src/algebra/mat.h", "src/polynomial/polynomial.h", "src/complex/complex.h", "src/autodiff/dual.h"],
     [("to_string of each type", "src/algebra/mat.h"), ("readln", "src/utility.h")],
     "values, separators and input lines are generated; non-trivial with more than one component or value",
     ["the format is the one the library has (six significant digits, symbols and separators as documented)"])

prop("C30", "Any headers, in any order and configuration, compile, link and work",
     "A program which includes any headers of the library, alone or in any order and combination with each other and with the standard library, compiles without ambiguities, links when several units include them, and gives the known answers of each module. "
     "This holds with the supported compilers and standards, with or without OpenMP, with each floating-point type and with each documented configuration macro.",
     ["inputs", "configurations"], "each header alone and twice, and random selections of 1 to 8 headers in 1 or 2 units, with g++ and clang++, C++14 to C++20, -O0 and -O1, three precisions, three error configurations and 11 other macros; 172 programs (quick), 1600 (thorough)",
     "the tests include the whole library in one order, one configuration and one translation unit",
     ["src/theoretica.h", "src/theoretica_mini.h", "src/core/constants.h", "src/core/real_analysis.h", "src/algebra/algebra.h", "src/algebra/vec.h", "src/utility.h"],
     [("header-only interface", "src/theoretica.h"), ("configuration macros", "src/core/constants.h")],
     "the selection and order of headers, the compiler, standard, macros and number of units are generated, with a fixed use of each header whose answers are known; non-trivial unless it is the whole library alone in the default configuration",
     ["both g++ and clang++ are installed; with FLOAT_PREC the known answers are expected to 2e-4"])

prop("C31", "Each floating-point type gives results as accurate as it allows",
     "When the library is built for float, double or long double, the constants, elementary functions, linear algebra, complex numbers, derivatives, quadratures, differential equation solvers, root finders, statistics and random numbers return the mathematical result within an error proportional to the epsilon of that type (of double for the extended type, whose constants and tables have that precision). "
     "No result falls back to the rounding of a narrower type, and no call reports an error or fails to end because an internal threshold belongs to another type.",
     ["inputs", "configurations"], "the same generated problems in single, extended, branchless double and portable single precision; tolerances requested explicitly where an algorithm takes one",
     "the tests are built for double only, so a literal, a cast or a threshold which only suits double is never seen",
     ["src/core/constants.h", "src/core/real_analysis.h", "src/algebra/algebra.h", "src/complex/complex.h", "src/optimization/roots.h", "src/statistics/statistics.h", "src/pseudorandom/sampling.h"],
     [("typedef of real and MACH_EPSILON", "src/core/constants.h"), ("algorithms written in terms of real", "src/core/real_analysis.h")],
     "arguments are generated in the type under test (with low-order bits beyond double in the extended one) and the reference is computed in long double; non-trivial when the argument is not 0 or 1 and the problem is not one-dimensional",
     ["arcs and roots computed by approximations or iterations have the coarser error of these algorithms", "the default tolerances of eigensolvers, of solvers in many variables and of the methods which compare the value of the function (1e-8) are not attainable in single precision, so the caller gives one; bracketing methods are used with their default"])
